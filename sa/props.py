"""Single source for properties.jsonl, MANIFEST.json and the check registry."""

PROPS = []


def P(id, run, title, statement, over, qtext, why, files, mech, technique, explanation, assumptions=(), level="other", note=None, **kw):
    PROPS.append(dict(id=id, run=run, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, explanation=explanation, assumptions=list(assumptions), level=level,
                      note=note or explanation, **kw))


P("P01", "fold.run",
  "Constant-fold kernels compute exactly what the reference runtime computes",
  "When every operand of a runtime operator is a known constant, the optimizer's fold kernel either declines or yields "
  "bit-for-bit the value the reference interpreter yields for that operator on those operands, infinities, NaN and signed "
  "zero included. It never folds where the interpreter would raise, never folds an impure or environment-dependent operator, "
  "and folds a select or switch only on operands that are exact in 32-bit floats.",
  ["inputs", "programs"], "every runtime operator, every operand count up to 8 and every tuple of double operands",
  "tests sample a few hundred operand tuples per operator; the claim covers every double, and a wrong boundary (one open "
  "end, one sign of zero, one clamped branch) is invisible to samples that miss it",
  ["sonolus/backend/_opt/kernels.pyx", "sonolus/backend/interpret.py"],
  [("fold_op / _fold_ease kernels", "sonolus/backend/_opt/kernels.pyx"), ("Interpreter.run reference semantics", "sonolus/backend/interpret.py")],
  "value-graph (gated term) comparison of kernel and interpreter source over an interval/ordering domain",
  "Value-graph comparison. For every operator id and operand count 0..8 the C kernel and the interpreter are translated "
  "(helpers expanded, CPython float and math semantics modelled) into gated term graphs over operand variables; the two graphs "
  "are compared on every cell of the partition induced by their comparison atoms (intervals, infinities, NaN, signed zero). "
  "A cell where the kernel folds must carry the interpreter's term; select operators may inspect only operands established "
  "exact in single precision; impure operators never fold.",
  ["libm functions called by the kernel and by CPython's math module are the same functions",
   "variadic operators are compared for up to 8 operands"])

P("P02", "natives.run",
  "Library functions mean the same on the host and as compiled runtime operators",
  "Every function of the script library that is backed by a runtime operator gives, when called outside the compiler on finite "
  "operands, the value the runtime computes for the operator it compiles to, with the same operand order and arity. A function "
  "declared constant-evaluable has a pure operator behind it, and each supported math or builtin function is replaced by an "
  "operator expression equal to the Python function it stands for.",
  ["inputs"], "every native-backed function, every tuple of finite operands for which the Python function returns",
  "tests call each function on a handful of values, mostly in one of the two modes; an operand swap, a wrong operator or a "
  "boundary that differs between host and runtime shows only on other values",
  ["sonolus/script/internal/native.py", "sonolus/script/internal/math_impls.py", "sonolus/script/internal/builtin_impls.py",
   "sonolus/script/easing.py", "sonolus/backend/interpret.py"],
  [("native_function wrapper", "sonolus/script/internal/native.py"), ("MATH_BUILTIN_IMPLS", "sonolus/script/internal/math_impls.py"),
   ("Interpreter.run", "sonolus/backend/interpret.py")],
  "value-graph (gated term) comparison of each function body with the interpreter's semantics of its operator",
  "Each @native_function body and each math/builtin replacement is translated to a gated term over its operands and compared "
  "with the interpreter's term for the operator it emits, over the interval/ordering partition of finite operands, modulo the "
  "identities of real arithmetic. Arity, parameter order and purity of the operator are compared with the declaration.",
  ["equality is over finite operands and modulo rounding of algebraically equal expressions",
   "the reference interpreter is the meaning of a runtime operator"])

P("P03", "nums.run",
  "Compiled numbers behave like Python numbers for every operator",
  "Each operator on numbers (arithmetic, reflected and in-place arithmetic, unary, comparison, and/or/not) gives the value "
  "Python's own operator gives on the same finite operands, for every split of the operands into compile-time constants and "
  "runtime values, including both operands naming the same place. Constant evaluation never crashes the compiler, and every "
  "Python operator token dispatches to its own method pair.",
  ["inputs", "programs"], "every operator, every constant/runtime split of the operands and every finite operand tuple",
  "tests use small sample values, mostly one constant/runtime split per operator; constant folding and operand order differ "
  "only on particular signs, magnitudes or aliasing",
  ["sonolus/script/num.py", "sonolus/script/internal/visitor.py"],
  [("Num operators and _bin_op", "sonolus/script/num.py"), ("operator dispatch tables", "sonolus/script/internal/visitor.py")],
  "symbolic translation of each dunder to gated terms (one per operand split) and normal-form comparison with Python semantics",
  "Every Num dunder is translated for each split const/runtime/same-place into a term over its operands; runtime operators are "
  "substituted by the interpreter's meaning. The term is compared with Python's operator over the partition of finite operands. "
  "The visitor's operator tables are evaluated from source and each token must map to its own dunder, reflected dunder or "
  "in-place dunder.",
  ["equality is over finite operands and modulo rounding of algebraically equal expressions"])

P("P04", "opmeta.run",
  "The compiler's operator metadata agrees with what operators do at runtime",
  "Every runtime operator carries the flags its behaviour requires: an operator that changes state or produces an observable "
  "effect is marked side-effecting, one that reads mutable state or the environment is not marked pure, and only pure operators "
  "are eligible for folding. The Python operator list, the ids and flag tables compiled into the optimizer and the build output "
  "name the same operators with the same ids and flags.",
  ["programs"], "every runtime operator and every table that describes it",
  "a wrong flag is harmless until an optimizer pass happens to delete, duplicate, reorder or fold that operator in some program",
  ["sonolus/backend/ops.py", "sonolus/backend/_opt/_ops_gen.pxd", "sonolus/backend/_opt/_ops_gen.h", "tools/gen_ops.py",
   "sonolus/backend/interpret.py", "sonolus/backend/_opt/kernels.pyx"],
  [("Op", "sonolus/backend/ops.py"), ("generated tables", "sonolus/backend/_opt/_ops_gen.pxd"), ("OP_FOLDABLE", "sonolus/backend/_opt/kernels.pyx")],
  "effect analysis of the reference interpreter plus table agreement (queries over the syntax trees)",
  "The operator enumeration, the generator script and the generated tables are evaluated from source and compared entry by entry. "
  "For each operator the interpreter's handler is analysed for memory writes, logging, randomness and environment reads; operators "
  "without a handler are compared with an explicit table of the runtime's documented effects.",
  ["operators the reference interpreter does not implement have the documented runtime effects listed in sa/spec_ops.py"])

P("P05", "geom.run",
  "Geometry operations compute what they document",
  "Every operation of the vector, interval, quad/rectangle and 2D-transform library equals its documented geometric meaning for all "
  "real operands: each output component is the closed form of the inputs, transforms compose in call order (later calls apply "
  "after earlier ones), and the inverse kept by an invertible transform undoes exactly its forward transform.",
  ["inputs"], "every public operation of the four modules and every real operand (zero divisors aside)",
  "tests transform a few points with round numbers, on which a swapped component, a transposed matrix entry, a wrong pivot or "
  "composition order often coincides with the right answer; the closed form must hold for all operands",
  ["sonolus/script/vec.py", "sonolus/script/interval.py", "sonolus/script/quad.py", "sonolus/script/transform.py"],
  [("Vec2, angle_diff, pnpoly", "sonolus/script/vec.py"), ("Quad, Rect", "sonolus/script/quad.py"),
   ("Transform2d, InvertibleTransform2d", "sonolus/script/transform.py"), ("Interval, lerp/remap/interp", "sonolus/script/interval.py")],
  "value graphs of record operations, compared with closed forms as quotients of polynomials (normal form over the reals)",
  "Each method is expanded into one gated term per output field (record construction, operators, properties and library calls "
  "followed through the source); the terms are compared with independently written closed forms by rational normal form, and "
  "comparison atoms by their normalised inequality. Sequence functions (interp, pnpoly) are compared for 2 to 4 points.",
  ["equality is over the reals: rounding, overflow and zero divisors are outside", "interp and pnpoly are compared on 2-4 points"])

P("P06", "rmw.run",
  "Fused read-modify-write operators mean exactly what they replace",
  "A store is replaced by a fused read-modify-write operator only when it stores op(read of the very same place, w) in that operand "
  "order, nothing with a side effect lies between read and store, and the operator chosen (set-add, increment, pointed, shifted, ...) "
  "performs that read, operation and write. Two places or values are taken to be the same only when they are structurally identical and "
  "pure. Every memory operator of the reference interpreter addresses, updates and returns what its name says, arguments first, left to right.",
  ["programs", "inputs"], "every memory operator, every operator id a mapping can be asked for, and every path on which a store is rewritten",
  "the pointer-relative forms never appear in compiled test programs, and a wrong guard matters only when a program updates one place "
  "from another that looks alike (same block, other index) or interleaves an effect",
  ["sonolus/backend/_opt/lower.pyx", "sonolus/backend/_opt/midend.pyx", "sonolus/backend/_opt/emit.pyx", "sonolus/backend/interpret.py"],
  [("fuse_rmw / _fuse_scalar / _places_equal", "sonolus/backend/_opt/lower.pyx"), ("_fuse_ptr_rmw / _try_fuse_ptr", "sonolus/backend/_opt/midend.pyx"),
   ("_shifted_fused_op", "sonolus/backend/_opt/emit.pyx"), ("Interpreter memory operators", "sonolus/backend/interpret.py")],
  "path-sensitive guard analysis (conditions on every path to the rewrite imply the rewrite's legality) plus value graphs of the memory operators",
  "The interpreter's memory operators are turned into gated terms over a symbolic memory and compared with read-op-write. The mapping "
  "functions are evaluated for every operator id. Every path of the rewriting functions is enumerated with its branch conditions; on a "
  "path that rewrites, the conditions must imply the replaced pattern (operator, arity, operand order, same address, same block, no effect "
  "between), checked by case analysis over the comparison atoms.",
  ["a store's value operand is used only by that store (guaranteed by tree construction)"])

P("P07", "emission.run",
  "The emitted node tree means what the compiled program says",
  "Every emitted read, store and fused update addresses block, index and offset of its place; every constant is emitted as its own value "
  "(NaN and infinities through the read-only memory cells that hold them); a block emits exactly its statements in order; and the emitted "
  "terminator sends each test value to the edge whose condition it equals, else to the default or the exit. Sharing of nodes never merges "
  "different operators, children or int/float forms, and spines are flattened only for operators evaluated as left folds.",
  ["programs", "inputs"], "every place shape, constant, block and test value; edge tables of 40 representative shapes",
  "a wrong address form, table hole or shared node shows only for particular combinations of index shape, offset, case gaps or constants "
  "that sampled programs rarely contain",
  ["sonolus/backend/_opt/emit.pyx", "sonolus/backend/interpret.py", "sonolus/script/internal/context.py"],
  [("_Emitter", "sonolus/backend/_opt/emit.pyx"), ("Interpreter.run", "sonolus/backend/interpret.py"), ("ReadOnlyMemory", "sonolus/script/internal/context.py")],
  "symbolic translation validation of the emitter from source: emitted node shapes interpreted as value graphs per path",
  "Each emitter method is expanded into one node shape per path with the path's branch conditions; the shape is given its meaning by the "
  "reference interpreter's value graph and compared with the address, value or target the arena prescribes, under those conditions. "
  "Terminators are compared for 40 edge-table shapes (dense, sparse, gapped, defaultless, fractional, infinite) over all test values. "
  "Interning keys, block elision and statement order are checked on the path summaries.",
  ["edge tables are compared for representative shapes, all test values each"])

P("P08", "meaning.containers",
  "Fixed-capacity collections and array views behave as they document",
  "For every size, index, element and history, VarArray, ArraySet, ArrayMap, FrozenNumSet, ArrayPointer, linked-entity sorting and the ArrayLike "
  "algorithms (append, insert, pop, remove, extend, set and map operations, search, count, extrema, sort, reverse, swap, iteration, reversed and "
  "enumerated views) read and write only live elements within capacity, keep size in step with contents, and return what their documentation says. "
  "Indices are normalised (negative from the end) and checked to be integers in range wherever checking is promised; full or missing elements are "
  "reported by the documented error or False/-1 without changing the collection. Pair ordering is lexicographic.",
  ["inputs", "histories"], "every operation of every collection class, all sizes, indices, elements and capacities",
  "collections hold run-time sizes and indices; off-by-one element moves, wrong guards at full or empty, or a stale size show only for "
  "particular sizes, positions and operation orders",
  ["sonolus/script/containers.py", "sonolus/script/array_like.py"],
  [("VarArray / ArraySet / ArrayMap / FrozenNumSet", "sonolus/script/containers.py"), ("linked entity sorting", "sonolus/script/containers.py"),
   ("ArrayLike, get_positive_index", "sonolus/script/array_like.py")],
  "semantic differencing: transition systems with back edges extracted from source, bisimulation against reference models",
  "Every operation is turned, from its source, into a transition system (gates on symbolic conditions, element and size stores, calls, loops as back "
  "edges with their carried variables; helpers expanded) and compared with the transition system of a reference model in sa/ref by region-splitting "
  "bisimulation: in every region of the branch conditions both sides must reach the same result, the same ordered updates and corresponding loops.",
  ["Capacity, sizes and indices are integers", "the reference models in sa/ref/containers.py and sa/ref/array_like.py state the documented behaviour"])

MEANING_TECH = "semantic differencing: transition systems with back edges extracted from source, bisimulation against reviewed reference models"
MEANING_HOW = (
    "Every function of these modules is turned, from its current source, into a transition system (gates on symbolic conditions, stores, calls in order, "
    "raises, loops as back edges with their carried variables; helpers expanded) and compared with the transition system of a reviewed reference model by "
    "region-splitting bisimulation: in every region of the branch conditions both sides must reach the same result, the same ordered effects and "
    "corresponding loops. Declarations (field order and types, constants, tables, decorators) are compared as values. ")


def M(id, fn, title, statement, over, qtext, why, files, mech, explanation, assumptions=(), **kw):
    P(id, "meaning." + fn, title, statement, over, qtext, why, files, mech, MEANING_TECH, MEANING_HOW + explanation,
      [*assumptions, "the reference models in sa/ref state the intended behaviour (they were reviewed against the documentation and Python's semantics)"], **kw)


M("P09", "storage",
  "Values keep their contents through layout, copy, assignment and zeroing",
  "Every storable value (number, record, array, nested combination) occupies exactly its declared size, its fields and elements lie in declaration "
  "order without overlap, and flattening to and rebuilding from a list of words are inverse. Reading, copying, assigning in place, zeroing, comparing "
  "and dereferencing transfer every word exactly once to or from the place it belongs to, with copies independent of their source and references "
  "following it. Size mismatches, wrong types and writes to read-only data are rejected instead of miscompiled.",
  ["inputs", "programs"], "every record and array shape, nesting, index, place and mixture of constant and run-time words",
  "tests use a few record and array shapes; a wrong offset, a shared instead of copied element or a reordered field shows only for particular "
  "nestings, sizes and sequences of writes",
  ["sonolus/script/record.py", "sonolus/script/array.py", "sonolus/script/num.py", "sonolus/script/values.py", "sonolus/script/pointer.py",
   "sonolus/script/globals.py", "sonolus/script/internal/value.py", "sonolus/script/internal/transient.py",
   "sonolus/script/internal/context.py"],
  [("Value protocol", "sonolus/script/internal/value.py"), ("Record", "sonolus/script/record.py"), ("Array", "sonolus/script/array.py"),
   ("global and level memory", "sonolus/script/globals.py")],
  "Covered: _from_list_/_to_list_/_from_place_/_get_/_set_/_copy_/_copy_from_/_alloc_/_zero_ of every value class, construction, indexing, equality, "
  "hashing, dereferencing and the declared memory blocks.")

M("P10", "comptime",
  "Compile-time containers, constants and type arguments behave like Python's",
  "Compile-time tuples, dicts, sets, ranges of constants, strings and Maybe values give for every supported operation what the same Python container "
  "gives (length, indexing, membership, iteration order, equality, concatenation, merging), evaluating each element once. Maybe yields its value only "
  "when present. Generic types are interned by their arguments, type variables resolve to exactly the argument bound to them, and mismatched bindings "
  "or wrong argument counts are rejected.",
  ["programs", "inputs"], "every compile-time container operation and every generic instantiation",
  "the containers hold mixtures of constants and run-time values in any nesting; tests use a few literals, while a wrong bound, a stale cache entry or a "
  "lost binding shows only for particular type arguments or positions",
  ["sonolus/script/maybe.py", "sonolus/script/internal/generic.py", "sonolus/script/internal/constant.py", "sonolus/script/internal/tuple_impl.py",
   "sonolus/script/internal/dict_impl.py", "sonolus/script/internal/set_impl.py", "sonolus/script/internal/impl.py"],
  [("Maybe", "sonolus/script/maybe.py"), ("GenericValue / accept_and_infer_types", "sonolus/script/internal/generic.py"),
   ("validate_value", "sonolus/script/internal/impl.py"), ("TupleImpl / DictImpl / FrozenSetImpl", "sonolus/script/internal/tuple_impl.py")],
  "Covered: Maybe, GenericValue, ConstantValue, TupleImpl, DictImpl, FrozenSetImpl, validate_value, descriptors and introspection helpers.")

M("P11", "visitor",
  "Compiled control flow and expressions follow Python's semantics",
  "Compiling a function produces code that, for every run-time condition, executes the same statements in the same order with the same variable "
  "bindings as Python would: if/elif/else, while and for with break, continue and else, match with every supported pattern and guard, conditional and "
  "short-circuit expressions, chained comparisons, comprehensions, unpacking, augmented and attribute/subscript assignment, closures, calls with any "
  "argument form, and return from any depth. Operands and arguments are evaluated once, left to right. Constructs that are not supported are rejected, "
  "never silently dropped.",
  ["programs", "inputs"], "every supported statement and expression form in every nesting, for all run-time conditions and compile-time/run-time splits",
  "programs combine constructs without bound; each handler has paths (constant condition, dead branch, else clause, tuple iteration) which the "
  "sampled programs do not reach",
  ["sonolus/script/internal/visitor.py", "sonolus/script/internal/context.py"],
  [("Visitor", "sonolus/script/internal/visitor.py"), ("compile_and_call", "sonolus/script/internal/visitor.py")],
  "Covered: every handler of the AST visitor, calls between handlers compared as calls (each handler has its own comparison).")

M("P12", "context",
  "Compilation contexts keep effects ordered, bindings merged and access checked",
  "Statements, tests and branches recorded during compilation land in the current block in program order and only while the block is live; branching, "
  "merging and looping contexts give every variable, on every path, the value last assigned on that path, and reject reading a binding the paths "
  "disagree on. Every read and write of memory is checked against the callback's permissions for that block. Constants, data-table entries and archetype "
  "ids shared between compilations are allocated once per distinct value, safely under concurrent use, and meta functions and natives run in the mode they declare.",
  ["programs", "schedules"], "every sequence of context operations, every control-flow merge and every callback/block permission pair",
  "a lost binding, statement in the wrong block or missing permission check appears only for particular merge shapes, dead branches or "
  "callback and block combinations; the tests sample few",
  ["sonolus/script/internal/context.py", "sonolus/script/internal/meta_fn.py", "sonolus/script/internal/native.py",
   "sonolus/script/internal/callbacks.py", "sonolus/script/internal/simulation_context.py"],
  [("Context / Scope", "sonolus/script/internal/context.py"), ("meta_fn", "sonolus/script/internal/meta_fn.py"), ("callback tables", "sonolus/script/internal/callbacks.py")],
  "Covered: context creation, branching and merging, scopes and bindings, memory permission checks, ROM/debug-string/archetype maps, meta_fn wrappers, "
  "native function wrapping, callback tables and the simulation context.")

M("P13", "archetype",
  "Archetype declarations, entity data and callbacks map to the right memory",
  "Each archetype field (imported, exported, entity data, memory, shared memory) gets its own slot of the right block, inherited fields keep their slots, "
  "and reads and writes through self, entity references and derived views reach exactly that slot with the access the callback allows. Spawning and level "
  "entities supply every field in order with the declared value or default, and exported and life/scoring fields are written to their own positions. "
  "Callbacks, hooks and inheritance resolve as declared, and misuse (wrong archetype, mode, field or callback) is rejected.",
  ["programs", "inputs"], "every archetype hierarchy, field mix, callback, mode and entity reference",
  "field offsets depend on the whole declaration chain; tests use small hierarchies, so an overlap, shifted import or skipped export shows only for "
  "particular mixes of inherited and multi-word fields",
  ["sonolus/script/archetype.py", "sonolus/script/internal/callbacks.py", "sonolus/script/internal/context.py"],
  [("_BaseArchetype", "sonolus/script/archetype.py"), ("_ArchetypeField", "sonolus/script/archetype.py"), ("EntityRef", "sonolus/script/archetype.py")],
  "Covered: field descriptors, field initialisation, spawn, level entities, references, archetype life and scoring, per-mode archetypes.")

M("P14", "streams",
  "Streams and stream groups address, search and iterate their own entries",
  "Each declared stream owns a disjoint range of stream ids of exactly its element size; writing at a key stores every word of the value under that key and "
  "reading returns it, default-initialised or interpolated where documented. Navigation (previous, next, inclusive or strict, has-previous, has-next) and "
  "iteration in either direction, with or without bounds, visit exactly the keys the documentation names in order, each once, and stop at the end. Data streams "
  "are writable only in play mode and readable only in watch mode.",
  ["inputs", "histories"], "every stream layout, key set, position and iteration direction",
  "streams exist only at run time over arbitrary key sets; boundary keys and empty streams are where strict and inclusive navigation differ",
  ["sonolus/script/stream.py"],
  [("Stream / StreamGroup", "sonolus/script/stream.py"), ("_StreamBacking", "sonolus/script/stream.py")],
  "Covered: stream declaration, Stream, StreamGroup, stream backing values and every iterator over them.")

M("P15", "iteration",
  "Ranges, iterators, random and builtin functions match their Python originals",
  "Range, enumerate, zip, reversed, map, filter, chained iterators and the replaced builtins and math functions (min, max, sum, any, all, abs, len, "
  "isinstance, sorted forms, divmod, round, ...) produce, for every argument list, keyword and mixture of constant and run-time operands, what Python's "
  "originals produce, calling the user's function once per element in order. Random helpers return only values in their documented range and pick each "
  "element by its own index. Unsupported argument forms are rejected.",
  ["inputs", "programs"], "every supported builtin and iterator, all arguments, lengths and compile-time/run-time splits",
  "steps of either sign, empty inputs, unequal lengths and key functions each take their own path; the sampled tests reach few of them",
  ["sonolus/script/iterator.py", "sonolus/script/internal/range.py", "sonolus/script/internal/random.py", "sonolus/script/internal/builtin_impls.py",
   "sonolus/script/internal/math_impls.py"],
  [("SonolusIterator", "sonolus/script/iterator.py"), ("BUILTIN_IMPLS", "sonolus/script/internal/builtin_impls.py"), ("Range", "sonolus/script/internal/range.py")],
  "Covered: range and iterator classes, generators' iterator protocol, random, and the builtin and math replacement tables.")

M("P16", "resources",
  "Resources, options, buckets and UI settings keep their own names and order",
  "Every declared sprite, effect, particle, instruction, icon, bucket, option and engine or level setting is exported once, in declaration order, with its own "
  "name, id, default and attributes, and the object handed to scripts refers to that same id. Standard names map to the strings the runtime defines. Drawing, "
  "playing, scheduling, spawning, moving, judging and option reads pass each argument to the runtime in its own position.",
  ["inputs", "programs"], "every resource class, standard name, attribute combination and argument",
  "tables hold hundreds of names and each runtime call many same-typed arguments; a swapped pair or repeated name is invisible unless that very entry is used",
  ["sonolus/script/sprite.py", "sonolus/script/effect.py", "sonolus/script/particle.py", "sonolus/script/instruction.py", "sonolus/script/bucket.py",
   "sonolus/script/options.py", "sonolus/script/ui.py", "sonolus/script/metadata.py", "sonolus/script/text.py", "sonolus/script/engine.py", "sonolus/script/project.py",
   "sonolus/build/engine.py"],
  [("skin / sprite", "sonolus/script/sprite.py"), ("options", "sonolus/script/options.py"), ("UiConfig", "sonolus/script/ui.py"), ("Engine", "sonolus/script/engine.py")],
  "Covered: every resource module's functions and every standard-name table, engine and mode construction and export.")

M("P17", "runtime_api",
  "Runtime interface functions read and set exactly the engine state they name",
  "Each runtime function and property (environment, time, screen, safe area, input touches, skin and particle transforms, UI configuration, score and life, "
  "level data, debug and printing) reads or writes exactly the block, slot and mode the runtime assigns to that quantity, with the unit and sign documented. "
  "In a mode where the quantity does not exist the documented fallback or an error results. Level entities and data are exported with every field, reference and default.",
  ["inputs", "programs"], "every runtime quantity, mode and callback",
  "the engine's memory layout is a contract outside the repository; a shifted slot or a wrong mode branch passes every test that does not read that quantity in that mode",
  ["sonolus/script/runtime.py", "sonolus/script/level.py", "sonolus/script/debug.py", "sonolus/script/printing.py",
   "sonolus/build/level.py", "sonolus/script/archetype.py"],
  [("runtime state records", "sonolus/script/runtime.py"), ("Level", "sonolus/script/level.py"), ("error / require / assert", "sonolus/script/debug.py")],
  "Covered: runtime state records (field order is the memory layout), mode dispatch, touches, UI layout setters, judgment windows, level export, debug and print functions.")

M("P18", "numeric",
  "Interpolation, intervals, easing and beat-time conversions are total and exact",
  "lerp, unlerp, remap, clamp, quantising and Interval operations return, for every finite operand including reversed and empty intervals, the documented value: "
  "the clamped forms stay within the ends, containment and intersection honour both bounds, and expansion and shrinking move each end its own way. Beat, time, "
  "scaled-time and tempo conversions use the runtime operator and argument order they name. Easing functions start and end where they should and pass their "
  "argument through the curve they name.",
  ["inputs"], "every numeric helper and every finite operand",
  "mistakes show at boundaries, on reversed or empty intervals and outside [0, 1], where samples rarely go",
  ["sonolus/script/numtools.py", "sonolus/script/interval.py", "sonolus/script/timing.py", "sonolus/script/easing.py"],
  [("Interval", "sonolus/script/interval.py"), ("numtools", "sonolus/script/numtools.py"), ("timing", "sonolus/script/timing.py")],
  "Covered: every function of numtools, interval, timing and easing.")

M("P19", "packaging",
  "Packaged engines and levels hold exactly what was declared, deterministically",
  "Packaging an engine emits, for every mode, the archetypes, callbacks with their order and node index, imports, exports, streams, skin, effects, particles, buckets, "
  "instructions, options and read-only memory in the runtime's format, each entry with the id the compiled code uses for it. Node lists are append-only: equal nodes share one "
  "index and every argument index refers to an earlier entry. Compiling a callback leaves its function bound with the declared arguments, and the same project always packages to the same bytes.",
  ["inputs", "programs"], "every engine, level, set of modes, archetype and callback",
  "an index that is off by one, a callback taken from another mode or a table in another order shows only for projects with several modes and archetypes",
  ["sonolus/build/engine.py", "sonolus/build/level.py", "sonolus/build/node.py", "sonolus/build/compile.py",
   "sonolus/backend/_opt/driver.pyx", "sonolus/script/archetype.py"],
  [("package_engine / build_*_mode", "sonolus/build/engine.py"), ("OutputNodeGenerator", "sonolus/build/node.py"), ("package_level_data", "sonolus/build/level.py"),
   ("callback_to_cfg", "sonolus/build/compile.py")],
  "Covered: every function of the engine, level, node and callback packaging modules and their tables.")

M("P20", "collection",
  "Building, linking and serving a project keeps every item, name and asset intact",
  "A built collection contains every loaded, converted and generated item under its own full name, assets stored once under the hash of their contents, texts localised to one "
  "language, and levels linked to the engine and resources they name. Writing it produces the documented directory layout, list and info files for every non-empty category. "
  "Rebuilding in the development server starts from the freshly loaded sources, applies each converter once to its own levels, and commands are parsed as documented.",
  ["inputs", "histories"], "every set of source files, levels, converters and every sequence of rebuilds",
  "names with dots, mappings without English text, levels already converted and second rebuilds are not in any sampled project",
  ["sonolus/build/collection.py", "sonolus/build/project.py", "sonolus/build/dev_server.py", "sonolus/build/cli.py", "sonolus/script/project.py"],
  [("Collection", "sonolus/build/collection.py"), ("build_project_to_existing_collection", "sonolus/build/project.py"), ("ServerState", "sonolus/build/dev_server.py"),
   ("build_project", "sonolus/build/cli.py")],
  "Covered: every function of these modules except the argument-parser definition (main) and the console input thread.")

M("P21", "opt_ir",
  "The optimizer's program graph, its verifier and its analyses are exact",
  "Loading a compiled control-flow graph into the optimizer's arena and exporting it again keeps every block, statement, place, value, edge and edge condition, and keeps their order. "
  "Constants, pure values and places are shared only when they are identical, impure ones never; access flags of a place follow the mode and callback; the verifier accepts every well-formed "
  "program and rejects the malformed ones it names. Liveness, definite array initialisation, dominators and loops are computed for every graph as their documentation defines them.",
  ["programs"], "every control-flow graph, block, value, place, mode and callback",
  "a wrong set element, a shared impure value or a lost edge matters only for particular graph shapes (irreducible flow, arrays written on one arm, duplicate edges) that few programs have",
  ["sonolus/backend/_opt/ir.pyx", "sonolus/backend/_opt/analysis.pyx", "sonolus/backend/optimize/flow.py"],
  [("Func arena, marshal_in / export, verify", "sonolus/backend/_opt/ir.pyx"), ("compute_liveness / compute_dominators / compute_loops", "sonolus/backend/_opt/analysis.pyx")],
  "Covered: every function of the arena and the analyses (parsed with Cython's parser) and their tables; calls between functions of the module stay calls on both sides, each "
  "function being compared with its own model.")

M("P22", "opt_midend",
  "Mid-end optimizer passes never change what a program does",
  "CFG cleanup, SSA construction and destruction, conditional constant propagation, value numbering and algebraic simplification, branch canonicalisation, loop-invariant code motion, switch "
  "rewriting, pointer update fusion and dead-code elimination carry out the rewrites they document and only those: each value, branch and block is replaced by one that gives the same result, "
  "memory and effects in the same order for every input. Impure and side-effecting operations are never duplicated, reordered, dropped or moved to a path that did not run them; phis, "
  "edges and their conditions stay consistent, and results do not depend on iteration order.",
  ["programs", "inputs"], "every program in the arena form and every value of its inputs",
  "a wrong rewrite needs a particular combination of loop, phi, alias and operator to show; generated programs reach few of these and compare only some outputs",
  ["sonolus/backend/_opt/midend.pyx", "sonolus/backend/_opt/analysis.pyx"],
  [("_Cleaner", "sonolus/backend/_opt/midend.pyx"), ("_SSABuilder / _UnSSA", "sonolus/backend/_opt/midend.pyx"), ("_SCCP, _gvn_instr, _run_dce, _licm_*, _run_rewrite_switch", "sonolus/backend/_opt/midend.pyx")],
  "Covered: every function of midend.pyx (parsed with Cython's parser) and its tables; calls between functions of the module stay calls on both sides, each function being compared with its own model.")

M("P23", "opt_lower",
  "Lowering and temporary allocation preserve every value and effect",
  "Leaving SSA form keeps every value: phis become parallel copies sequenced without losing a value, values are inlined into trees only where no write or effect lies between definition and "
  "use, temporaries are coalesced only when they never hold different live values, and if-conversion turns branches into selects only for pure operands. Allocation gives temporaries that are "
  "live together disjoint slots inside the temporary block, arrays contiguous ones, removes a store only when its value is never read, and rejects programs that do not fit.",
  ["programs", "inputs"], "every SSA program and every value of its inputs",
  "lost copies, swapped phis and overlapping slots appear only with particular cycles of copies and lifetimes",
  ["sonolus/backend/_opt/lower.pyx", "sonolus/backend/_opt/analysis.pyx"],
  [("_Lower / lower_from_ssa", "sonolus/backend/_opt/lower.pyx"), ("_IfConv", "sonolus/backend/_opt/lower.pyx"), ("allocate_func, _dead_store_elim, fuse_rmw", "sonolus/backend/_opt/lower.pyx")],
  "Covered: every function of lower.pyx (parsed with Cython's parser) and its tables; calls between functions of the module stay calls on both sides, each function being compared with its own model.")

M("P24", "backend",
  "Optimization levels, graphs, places and the interpreter follow their definition",
  "Each optimization level runs exactly its documented passes in order, whichever entry point is used, and every callback is compiled for its own mode and name. Graph traversals visit each "
  "reachable block once in the documented order, edges are ordered by condition with the default last, and text and diagram output shows every block, phi, statement and edge. IR values, places "
  "and nodes compare, hash and print by their contents, memory blocks carry the id and the per-callback access the runtime defines, the interpreter evaluates every operator, branch and memory "
  "access as the runtime does, and functions, tracebacks and timings are attributed to their own source.",
  ["programs", "inputs"], "every graph, place, node, operator, mode, callback and optimization level",
  "an access flag of one callback, an operator's rare operand or the order of equal-looking edges is outside what samples reach",
  ["sonolus/backend/optimize/flow.py", "sonolus/backend/optimize/__init__.py", "sonolus/backend/_opt/driver.pyx", "sonolus/backend/blocks.py", "sonolus/backend/interpret.py",
   "sonolus/backend/ir.py", "sonolus/backend/place.py", "sonolus/backend/node.py", "sonolus/backend/utils.py", "sonolus/backend/excepthook.py", "sonolus/backend/optimize/profiling.py",
   "sonolus/backend/mode.py"],
  [("_pipeline / compile_mode", "sonolus/backend/_opt/driver.pyx"), ("traverse_cfg_*, cfg_to_text", "sonolus/backend/optimize/flow.py"), ("Interpreter", "sonolus/backend/interpret.py"),
   ("memory block tables", "sonolus/backend/blocks.py")],
  "Covered: every function of these modules and their tables.")


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, None, title, statement, over, qtext, why, files, mech, "", reason, reason=reason)


N("P25", "Every optimization level yields the same observable run of every program",
  "For every compiled callback, the node tree produced at each optimization level writes the same memory, calls the same effects in the same order "
  "and returns the same value as the unoptimized control-flow graph, for every initial memory and every sequence of environment values.",
  ["programs", "inputs"], "every compilable program, every level and every initial memory",
  "random program tests sample small graphs; the claim covers whole pipelines on every program",
  ["sonolus/backend/_opt/driver.pyx", "sonolus/backend/optimize/flow.py"],
  [("optimization pipeline", "sonolus/backend/_opt/driver.pyx")],
  "A refinement theorem over the composition of all passes and every program: no static argument in reach proves it end to end. Its parts are claimed "
  "pass by pass, against the documented rewrite of each pass (P21, P22, P23, P06, P07, P01); the composition itself would need execution or a machine-checked proof.")
N("P26", "Compilation and packaging finish in bounded time and memory on every project",
  "The compiler's tracing, the optimizer's fixpoint iterations and the packaging of any project terminate, within time and memory polynomial in the size "
  "of the traced program.",
  ["programs"], "every project", "tests only compile small scripts",
  ["sonolus/backend/_opt/midend.pyx", "sonolus/script/internal/visitor.py"],
  [("fixpoint passes", "sonolus/backend/_opt/midend.pyx")],
  "Tracing runs user-written meta code and unrolls compile-time loops of any length, and the fixpoints are bounded by lattice heights that depend on run-time "
  "graph shapes; no sound static bound is in reach. Only the structure of each loop (what it carries, when it leaves) is compared, in P21-P23.")
N("P27", "Compiled arithmetic stays close to the host result in the runtime's precision",
  "A value computed by a compiled script in the runtime's single-precision arithmetic differs from the value the same Python code computes in double "
  "precision by no more than the rounding of its inputs explains.",
  ["inputs", "programs"], "every script and every operand", "tests use small exactly representable numbers",
  ["sonolus/backend/interpret.py", "sonolus/script/num.py"],
  [("Interpreter arithmetic", "sonolus/backend/interpret.py")],
  "Rounding error accumulates with run-time magnitudes and loop counts; the runtime itself is not part of the repository. P01-P03 and P05 decide equality of "
  "the expressions, not error bounds.")
