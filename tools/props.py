TP = ["src/thread_pool.cpp", "include/muu/thread_pool.h"]
NOTE_C = ("Bounded: TLC explores the implementation-shaped model of the pool exhaustively for 1-3 workers and small programs against the contract; the code is "
          "bound to it by judging with TLC the executions recorded from the real thread_pool under a controlled scheduler (random, PCT-like and bounded-"
          "preemption schedules). Trusts the scheduler interposition, sequentially consistent interleavings and the driver.")
TC = "TLA+ (TLC) model of the pool checked against a contract; controlled-schedule executions of the real code judged by the same contract"
NOTE_R = ("Bounded: every transition of the component's TLA+ specification up to a depth is replayed on the real code, plus random operation sequences; "
          "TLC judges every observation. Trusts the C++ driver, ASan/UBSan and the small operation alphabets.")
TR = "TLA+ specification explored by TLC; its transitions and random sequences replayed on the real code, observations judged by TLC"

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=TR, note=NOTE_R):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))


prop("C01", "Every enqueued task runs exactly once",
     "Every task handed to a thread pool, from any thread including a running task, is executed exactly once (unless its pool is destroyed before the task "
     "starts), on a worker thread of that pool, with that worker's index. It sees the argument values it was enqueued with, and its captured state is "
     "destroyed exactly once and never used after that.",
     ["schedules", "programs"], "every interleaving of enqueuers and workers, every queue capacity and worker count, every mix of small and large captures",
     "the tests enqueue from one thread with whatever interleaving the OS happens to produce and only count completions",
     TP, [("task queues: ring buffers, try-lock stealing", "src/thread_pool.cpp"), ("task storage and move into the worker", "include/muu/thread_pool.h")], TC, NOTE_C)
prop("C02", "wait() is a barrier for everything enqueued before it",
     "When wait() returns, every task enqueued before the call has finished and its captured state has been destroyed, and their effects are visible to the "
     "caller. wait() always returns once those tasks and the ones they enqueue finish, for any number of concurrent waiters.",
     ["schedules", "programs"], "every interleaving of waiters, enqueuers and workers",
     "the tests call wait() after one for_each; a window of a few instructions between task end and wake-up is never scheduled",
     TP, [("counter of tasks in flight and its condition variable", "src/thread_pool.cpp")], TC, NOTE_C)
prop("C03", "Destroying or moving a pool leaks no worker and no task state",
     "Destroying a thread pool, or assigning another one to it, waits for the tasks that are running, destroys the captured state of those that never started, "
     "joins every worker and always returns (a constructor that cannot create its threads does the same, and throws); nothing of the pool runs afterwards. A moved-to pool keeps the workers and pending tasks of the moved-from one, "
     "which becomes an empty object that is safe to destroy or assign to.",
     ["schedules", "histories"], "every interleaving of shutdown with pending, running and self-enqueuing tasks, and every move sequence",
     "the tests destroy pools only when idle and never move-assign onto a running pool",
     TP, [("termination flag and queue notification, worker join", "src/thread_pool.cpp"), ("special members", "include/muu/thread_pool.h")], TC, NOTE_C)
prop("C04", "for_each visits every element of the range exactly once",
     "for_each over an iterator or integral range invokes the function exactly once for every element, with that element (and the batch index when it takes "
     "one), in order within a batch, for every range size including empty, ranges at the limits of the integral type, and every worker count and capacity. "
     "All invocations have finished when wait() returns.",
     ["schedules", "inputs"], "every range (sizes, signedness, width, direction limits), worker count, queue capacity and interleaving",
     "the tests use a handful of positive ranges on the default pool",
     TP, [("batch partition arithmetic", "include/muu/thread_pool.h")], TC, NOTE_C)
prop("C05", "Bounded queues: back-pressure without loss, FIFO per queue",
     "A pool never holds more than its declared capacity of unstarted tasks: an enqueue into a full pool blocks until there is room, and then succeeds. "
     "A pool with one worker runs tasks in the order they were enqueued, and capacity() and workers() report the effective values for every constructor argument.",
     ["schedules", "configurations"], "every worker count and capacity argument and every interleaving of producers and consumers",
     "the tests never fill a queue",
     TP, [("per-queue slots and blocking push", "src/thread_pool.cpp"), ("worker/capacity defaults and rounding", "src/thread_pool.cpp")], TC, NOTE_C)
prop("C06", "spin_mutex provides mutual exclusion and publication",
     "At most one thread holds a spin_mutex at a time, an unlock makes everything written under the lock visible to the next holder, and a lock attempt "
     "succeeds once the mutex stays free. try_lock never blocks and fails only while another thread holds the mutex.",
     ["schedules"], "every interleaving and every memory order the C++ model allows for the operations used",
     "there is no test of spin_mutex; on x86 a missing ordering would never show",
     ["include/muu/spin_mutex.h"], [("atomic flag with acquire/release", "include/muu/spin_mutex.h")],
     "TLA+ (TLC) model of the lock with weak orders; controlled-schedule executions of the real code judged by the contract",
     "Bounded: 2-3 threads. The orders used by the code are recorded from the real atomics at run time and checked; trusts the interposed atomics.")
prop("R01", "A blob owns exactly its bytes, at its alignment, through any history",
     "A blob holds exactly the bytes it was constructed or assigned from, at an address aligned to its reported alignment, through any sequence of copies, "
     "moves, assignments (including from itself or from part of its own memory) and resizes. Resizing keeps the common prefix, moving leaves the source empty, "
     "and no memory is leaked, freed twice or read after being freed.",
     ["histories", "inputs"], "every sequence of operations, size and alignment",
     "the tests check a few constructions; aliasing and alignment changes are never exercised",
     ["include/muu/blob.h", "include/muu/aligned_alloc.h"], [("allocate/copy/free and alignment calculation", "include/muu/blob.h")])
prop("R02", "An emplacement_array owns exactly the elements emplaced into it",
     "An emplacement_array holds exactly the elements emplaced into it, in order and at stable, correctly aligned addresses, never more than its capacity. "
     "Every element is destroyed exactly once: when the array is cleared, assigned over or destroyed, and an element whose construction throws leaves the array "
     "as it was. Moving the array transfers its elements and leaves the source empty with no capacity.",
     ["histories", "inputs"], "every history of emplacements, throwing constructors, clears and moves, for every kind of element",
     "the tests emplace a few values; throwing constructors, over-aligned and move-only elements are not sampled together with moves",
     ["include/muu/emplacement_array.h"], [("manual construction and destruction in raw storage", "include/muu/emplacement_array.h")])
prop("R03", "Scope guards run exactly when their scope ends the way they ask for",
     "A scope_guard runs its function exactly once when its scope ends, by any path; a scope_fail only when the scope is left by an exception newer than the "
     "guard, and a scope_success only when it is not. Guards run in the reverse order of their construction, and a dismissed guard never runs.",
     ["histories", "programs"], "every nesting of scopes, exceptions and destructors that run during stack unwinding",
     "a test cannot enumerate the nestings of guards inside destructors that run while another exception is in flight",
     ["include/muu/scope_guard.h"], [("count of uncaught exceptions at construction and destruction", "include/muu/scope_guard.h")])
prop("R04", "A string_param holds and converts the text it was made from",
     "A string_param, made from a view, a literal, an iterator pair or a string of any character type, views or owns exactly that text. It converts on demand to "
     "any other character type without loss, and moves, trims and hands out its string without copying a text twice, leaking it or reading it after it has been freed.",
     ["inputs", "histories"], "every well-formed text, encoding and sequence of conversions, moves and trims",
     "the tests hardly touch string_param: conversions after moves or trims are never sampled",
     ["include/muu/string_param.h", "src/string_param.cpp"], [("tagged storage, conversion and move", "src/string_param.cpp")])
prop("R05", "A tagged_ptr keeps its pointer and its tag apart",
     "A tagged_ptr returns exactly the pointer and the tag last stored in it: changing, clearing or querying one never changes the other, for every pointer "
     "aligned as its type requires and every tag value or bit that fits the tag bits. Comparisons of tagged pointers look only at the pointers.",
     ["inputs", "histories"], "every address, including the limits of the address space, every tag type and every bit",
     "the tests use a few addresses of real objects and small positive tags",
     ["include/muu/tagged_ptr.h"], [("mask and shift packing", "include/muu/tagged_ptr.h")])
prop("R06", "A function_view calls the callable it was made from, with its arguments",
     "Calling a function_view calls the callable it was made from, forwarding arguments, result and exceptions unchanged, with the constness of the view's "
     "signature. A copy or assignment of a view refers to the same callable and does not depend on the original view, and an empty view compares false.",
     ["histories", "inputs"], "every kind of callable and every history of copies, assignments and rebindings",
     "the tests check one callable of each kind, never a copy that outlives the view it was made from",
     ["include/muu/function_view.h"], [("type-erased storage of function and object pointers", "include/muu/function_view.h")])
NOTE_T = ("Bounded: every decoder input of up to four code units from an alphabet of boundary values, plus random texts; longer texts only sampled. "
          "TLC judges every observation of the real code against the specification. Trusts the C++ driver and ASan/UBSan.")
prop("T01", "UTF decoders decode exactly the well-formed sequences",
     "Fed one code unit at a time, a UTF-8 or UTF-16 decoder reports a code point exactly when it has received a well-formed sequence and that is its value. An "
     "ill-formed sequence is reported as an error as soon as it is one. utf_decode visits the code points of any text in order (or in reverse), and guesses "
     "the byte order of UTF-16 and UTF-32 from a byte order mark or the bytes alone.",
     ["inputs"], "every sequence of code units, well-formed or not, truncated anywhere, in both directions",
     "the tests decode a few sample strings; the space of ill-formed and truncated sequences is far larger",
     ["include/muu/utf8_decoder.h", "include/muu/utf16_decoder.h", "include/muu/utf_decode.h"],
     [("UTF-8 automaton", "include/muu/utf8_decoder.h"), ("decode loop", "include/muu/utf_decode.h")], note=NOTE_T)
prop("T02", "Transcoding between UTF-8, UTF-16 and UTF-32 loses nothing",
     "Transcoding a well-formed text between any two of the character types yields the same code points in the target encoding, without a missing, additional or "
     "overlong unit, so that transcoding back yields the original. Ill-formed input never produces ill-formed output and never reads beyond the text.",
     ["inputs"], "every text and pair of encodings",
     "the tests transcode a few strings; NUL, the highest code points and ill-formed inputs are not among them",
     ["include/muu/strings.h"], [("encoding lengths and unit construction", "include/muu/strings.h")], note=NOTE_T)
prop("T03", "Trimming removes exactly the surrounding white space",
     "trim, trim_left and trim_right return the part of the text without the longest run of white-space code points at its two ends, or at the one asked for, and "
     "never split a code point, read beyond the text or change what is between.",
     ["inputs"], "every text in every encoding, including all-blank, empty and ill-formed ones",
     "the tests trim a few strings",
     ["include/muu/strings.h"], [("forward and reverse scan by code point", "include/muu/strings.h")], note=NOTE_T)
prop("T05", "A fixed_string behaves like the string of its characters",
     "A fixed_string holds exactly the characters it was made from, cut or padded with NULs to its length, and every operation on it (substr, slice, concatenation, "
     "conversion, indexing, search, iteration and comparison) yields what the same operation on the sequence of its characters does. Comparisons are a total order that agrees with itself.",
     ["inputs"], "every content, length, index and pair of lengths",
     "the tests use a few literals; slices with negative and out-of-range indices and comparisons of unequal lengths are hardly sampled",
     ["include/muu/fixed_string.h"], [("compile-time slicing and comparison", "include/muu/fixed_string.h")])
prop("N01", "An accumulator reports exactly the samples it was given",
     "An accumulator reports the number, minimum, maximum and sum of all samples added since it was made, whatever the order and grouping in which they were "
     "added or accumulators were merged. Merging an empty accumulator changes nothing, and floating-point sums are compensated.",
     ["inputs", "histories"], "every history of samples and merges, for scalar and vector samples",
     "the tests add samples to one accumulator; merges are not tested",
     ["include/muu/accumulator.h"], [("merge and compensated summation", "include/muu/accumulator.h")])
prop("N02", "integral_range denotes exactly the values from start to end",
     "Iterating an integral_range visits exactly its values in order, and its size, emptiness, iterators and relations with values and other ranges agree "
     "with that set of values. This holds for every integral or pointer type and for ranges that touch or span the limits of the type.",
     ["inputs"], "every pair of ends, including those at the limits of 8- to 128-bit types",
     "the tests use a few ranges near zero",
     ["include/muu/integral_range.h"], [("distance arithmetic at the width of the type", "include/muu/integral_range.h")])
prop("N03", "Bit operations give the arithmetic result for every value and type",
     "Counting, filling, rounding, reversing, selecting, swizzling, packing and aligning bits and bytes gives the result defined by the bits of the value, for "
     "every value of every integer or enum type from 8 to 128 bits. The result is the same in constant expressions as at run time, and an out-of-range byte index selects zero.",
     ["inputs"], "every value, width, shift count and index, at compile time and at run time",
     "the tests check a few values per type; the constant-expression implementations are different code from the run-time ones",
     ["include/muu/bit.h", "include/muu/countl.h", "include/muu/countr.h", "include/muu/popcount.h", "include/muu/bit_pack.h", "include/muu/byte_reverse.h",
      "include/muu/bit_fill.h", "include/muu/bit_ceil.h", "include/muu/bit_floor.h", "include/muu/apply_alignment.h"],
     [("intrinsic and constant-expression variants", "include/muu/countl.h"), ("packing", "include/muu/bit_pack.h")])
prop("N04", "Mathematical functions give the right value at compile time and run time",
     "Roots, trigonometry, rounding, interpolation, angle normalization, approximate comparison, minima, maxima, clamping, range tests, gcd, lcm, signs and work sharing "
     "give the mathematical result, within the rounding of their type, for every argument in their domain and every mix of argument types. The value in a constant "
     "expression agrees with the one at run time.",
     ["inputs"], "every argument, argument type mix and floating-point type, at compile time and at run time",
     "the tests check a handful of values; the constant-expression implementations are different code (series and Newton iterations) from the run-time ones",
     ["include/muu/math.h", "include/muu/impl/core_utils.h", "include/muu/half.h"],
     [("naive series and Newton iterations used in constant expressions", "include/muu/math.h"), ("mixed-sign comparison, min, max, clamp, between", "include/muu/impl/core_utils.h")])
prop("N05", "A half is the IEEE 754 binary16 number its 16 bits say it is",
     "Every conversion to and from half and every arithmetic or comparison operator on halves, alone or mixed with other types, gives the correctly rounded (to nearest, ties to "
     "even) binary16 result, including subnormals, infinities, NaN and signed zero. Numeric limits and bit-level helpers describe the same format, with and without native support for the type.",
     ["inputs"], "every one of the 65536 patterns, every operand type, native and emulated builds, compile time and run time",
     "the tests convert a table of values and check some sums; rounding ties, subnormals and the emulated build are not sampled",
     ["include/muu/half.h"], [("conversion between float and half, hardware and emulated", "include/muu/half.h")])
prop("N06", "Every named constant is the value its name says, in every type",
     "Each named mathematical constant is its number rounded to the precision of its type, and each limit, special value, small integer and ASCII character constant has exactly the value "
     "of its name. Vectors and matrices repeat the scalar in every component, and axes, directions, rotations, unit shapes, planes and UUID name spaces are the ones named.",
     ["inputs"], "every constant of every type that has it, native and emulated half",
     "the tests use a few of the constants as inputs and none to the last bit of its type",
     ["include/muu/impl/core_constants.h", "include/muu/half.h", "include/muu/vector.h", "include/muu/matrix.h"],
     [("constant tables", "include/muu/impl/core_constants.h"), ("bit patterns of half constants", "include/muu/half.h")])
prop("H01", "sha1 is SHA-1 of the bytes fed, however they are split",
     "A finished sha1 holds the SHA-1 digest of all bytes it was fed, whatever the sizes of the pieces and the types in which they were passed. Strings of wider "
     "characters count as their UTF-8 encoding, finishing again or feeding a finished hasher changes nothing, and copies continue independently.",
     ["inputs", "histories"], "every message, splitting, character type and order of feeding, copying and finishing",
     "the tests hash a few short strings in one piece; block boundaries and padding cases are not sampled",
     ["include/muu/hashing.h", "src/hashing.cpp"], [("block buffering and padding", "src/hashing.cpp")])
prop("H02", "fnv1a and hash_combiner give their documented values for every input",
     "An fnv1a of 32, 64 or 128 bits holds the FNV-1a hash of all bytes it was fed, whatever the pieces and types in which they were passed, with wider strings "
     "hashed as UTF-8. A hash_combiner of any width mixes each hash into its value by its documented formula, at full width and order-dependently.",
     ["inputs", "histories"], "every message, splitting, character type and width",
     "the tests hash a few strings",
     ["include/muu/hashing.h"], [("byte step and primes", "include/muu/hashing.h"), ("combiner shifts", "include/muu/hashing.h")])
prop("U01", "A uuid's text is parsed exactly when it is one, and printed canonically",
     "Parsing accepts exactly the texts of 32 hexadecimal digits with optional matching braces, hyphens or white space between bytes and white space around, in every "
     "encoding, and yields the bytes they denote; everything else is rejected without reading beyond the text. Printing gives the canonical 36 characters, which parse back to the same uuid.",
     ["inputs"], "every text in every encoding, and every uuid",
     "the tests parse a handful of well-formed and malformed strings",
     ["include/muu/uuid.h", "src/uuid.cpp"], [("parser automaton", "include/muu/uuid.h"), ("printing", "src/uuid.cpp")])
prop("U02", "A uuid's fields, order and generated values follow RFC 4122",
     "All views of a uuid (bytes, fields, 128-bit integer, variant, version) agree with its 16 bytes, comparison is the order of the bytes, and equal uuids have equal "
     "hashes. A named uuid is the version-5 uuid of its namespace and name, and a generated one is a new version-4 uuid.",
     ["inputs", "histories"], "every uuid, field, namespace and name",
     "the tests check a few uuids",
     ["include/muu/uuid.h", "src/uuid.cpp"], [("byte slicing", "include/muu/uuid.h"), ("generation", "src/uuid.cpp")])
prop("V01", "Vectors do element-wise, dot, cross and length arithmetic exactly",
     "For every dimension and scalar type, arithmetic on a vector is the arithmetic of its elements in its own type (promoting small floats), with dot, cross, length, "
     "distance, direction, projection, angles and normalization as in Euclidean geometry. Element access, slices, swizzles, conversions and iteration denote the same stored "
     "elements, compound forms agree with plain ones also when operands alias, and integer results are exact.",
     ["inputs", "histories"], "every vector of every dimension and scalar type, every operand aliasing, every index",
     "the tests check a few float and int vectors; unrolled and generic implementations and small types share almost no code",
     ["include/muu/vector.h"], [("unrolled and generic element operations", "include/muu/vector.h")])
prop("V02", "Matrices follow linear algebra; transforms build the documented matrix",
     "Arithmetic on matrices (products with matrices, vectors and scalars, transpose, determinant, inverse, orthonormalization) is that of linear algebra for every shape, and "
     "compound and aliased forms agree with plain ones. Construction, element and column access and conversion denote the same elements, and every from_* transform "
     "(scale, translation, axes, quaternion, axis-angle, Euler, direction, projection) has exactly the documented effect.",
     ["inputs", "histories"], "every matrix of every shape and scalar type, every element, every transform argument",
     "the tests check a few products and inverses; each shape up to 4x4 has its own unrolled code",
     ["include/muu/matrix.h"], [("unrolled products and inverses", "include/muu/matrix.h"), ("transforms", "include/muu/matrix.h")])
prop("V03", "Quaternions, axis-angles and Euler angles are rotations that compose",
     "Quaternion arithmetic is Hamilton's algebra, and a unit quaternion rotates vectors, composes, converts to and from matrices, axis-angle and Euler angles, scales and "
     "interpolates (slerp) as the one rotation it stands for. from_rotation(from, to) and the shortest-path forms take the smaller rotation, including for opposite directions, "
     "half turns, gimbal lock and sign-flipped quaternions.",
     ["inputs", "histories"], "every pair of quaternions, rotations given in any notation, every interpolation position",
     "the tests convert a few angles; each pivot of the matrix conversion and each branch near a singularity is its own code",
     ["include/muu/quaternion.h", "include/muu/axis_angle.h", "include/muu/euler_angles.h", "include/muu/impl/quaternion_x_matrix.h"],
     [("conversions", "include/muu/quaternion.h"), ("pivoting", "include/muu/impl/quaternion_x_matrix.h")])
prop("S01", "A span views exactly the elements it names; arrays and iterators agree",
     "However a span is built, converted, sliced, iterated or reinterpreted as bytes (any extent, alignment or constness), it refers to exactly the elements its source names: "
     "no more, no fewer, in order, in place; writes through it land there. static_array is an immutable sequence of its elements, ordered lexicographically, and "
     "begin_iterator, end_iterator and iterator_distance find what a range-based for does.",
     ["inputs", "histories"], "every source, extent, slice, element type and element, at run time and in constant expressions",
     "the tests build a handful of spans and iterate them; slices, last(), bytes and static_array's ordering have no test",
     ["include/muu/span.h", "include/muu/static_array.h", "include/muu/iterators.h"],
     [("slices and conversions", "include/muu/span.h"), ("lexicographic order", "include/muu/static_array.h"), ("ends of a range", "include/muu/iterators.h")])
GEO = ["include/muu/impl/geometry_common.h"] + ["include/muu/%s.h" % n for n in ("bounding_box", "oriented_bounding_box", "bounding_sphere", "plane", "ray", "triangle", "line_segment")]
prop("G01", "Shapes contain, measure and move exactly the points they stand for",
     "Line segments, triangles, boxes, oriented boxes, spheres and planes contain a point or a shape exactly when geometry says so, give the closest point, size, corners, "
     "centre, barycentric coordinates, side and distance of what they were built from, and compare equal exactly when their numbers do. Every way of building one and every "
     "member, static and free form of a question agree. Translating, scaling, transforming, growing and boxing a shape gives the shape of the moved points.",
     ["inputs", "histories"], "every shape and point, including touching, collinear, coplanar, empty and flat ones, in every scalar type and by every way of asking",
     "the tests ask a few generic cases; each answer has its own code per shape, and boundary, collinear or far-off cases take branches of their own",
     GEO, [("per-shape predicates", "include/muu/impl/geometry_common.h"), ("shape classes", "include/muu/bounding_box.h")])
prop("G02", "Intersection tests and ray casts are geometrically right",
     "Every pair of shapes muu can test for intersection is reported to intersect exactly when the two sets of points meet, by every member, static, reversed and collision-tester "
     "form of the question; the common segment of two triangles lies on both. A ray hits a plane, triangle, sphere or box exactly when it meets it at or after its origin, and the distance "
     "is that of the first meeting (the exit, for an origin inside). sat_tester separates point sets exactly when their projections are apart.",
     ["inputs"], "every pair of shapes in every relative position, including those only an edge-edge axis separates, and every ray, inside, behind, parallel or through the centre",
     "the tests have no case where only one of the separating axes decides, and cast rays at shapes in front of them",
     GEO + ["include/muu/impl/tri_tri_intersection.h", "include/muu/sat_tester.h"],
     [("separating axes, Moeller-Trumbore, slabs", "include/muu/impl/geometry_common.h"), ("triangle against triangle", "include/muu/impl/tri_tri_intersection.h")])
