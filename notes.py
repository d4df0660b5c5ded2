"""What each check decides: used for the evidence files and for DESIGN.md (python3 spec.py)."""
# id: (what is decided and how, oracle, bounds quick, bounds thorough, outside, cost)
N = {}
def n(id, how, oracle, quick, thorough, outside, cost):
    N[id] = dict(how=' '.join(how.split()), oracle=' '.join(oracle.split()), quick=' '.join(quick.split()), thorough=' '.join(thorough.split()), outside=' '.join(outside.split()), cost=cost)

n('C01', '''tq_history forks over every operation of every step (push, emplace, pop) with symbolic 64-bit pointers (null included) and checks every observer after each step; tq_long drives the heap
  representation across the blocks of its deque; tq_via starts from queues obtained by copying, moving and swapping. Allocations are counted: nothing is lost or released twice. Most assertions are decided by
  structural equality of terms without a solver query.''',
  'a plain array of the pointers that should be stored', '5 operations; 68 elements in a fixed pattern; 3 elements and 3 operations after a transfer', '7 operations; 135 elements; 4 and 4',
  'longer histories; exhaustion of memory', '4 s')
n('C02', '''tq_copy builds source and target by every combination of construction up to n elements (with and without pops, i.e. in either representation), applies every copy, move, assignment and swap including those with itself,
  and then uses both sides; tq_moved_from uses a moved-from queue. Live allocations are counted.''', 'two arrays', '3 elements per side, 2 through transfers; up to 130 with two symbolic pointers', '4 and 3', 'exhaustion of memory', '13 s')
n('C03', 'tq_compare builds two queues in every representation with symbolic pointers and compares all six relations with the sequences.', 'lexicographical comparison of arrays', '3 elements per side; up to 130 with two symbolic pointers', '5 elements per side', 'element types other than pointers', '4 s')
n('C04', 'chain_edit builds every partition of k nodes into chains, chooses every pair of nodes and every operation (ChainTraits and ChainBase forms), and compares all links with a model of the lists.', 'arrays of successors and predecessors', 'k=4 and 1 edit, k=3 and 2 edits',
  'k=5 and 1 edit, k=4 and 2 edits', 'calls whose preconditions (asserts) are violated; user types other than an intrusive node', '4 s')
n('C05', 'chain_iter moves iterators of every kind (forward, reverse, const) by every sequence of steps, including past the ends, and compares with positions in the chain; chain_walk walks complete chains in both directions.', 'position in an array', 'chains of 3 nodes and 3 steps; walks of 4', '4 and 4; 5', 'operator-> of DiagnosticInfo iterators cannot be instantiated (not claimed)', '4 s')
n('C06', '''every text up to n bytes (every byte symbolic, all 256 values) is parsed as each supported type; every memory access, every branch on uninitialised memory, every release and the termination of every path are decided. Long shapes
  (objects with nested unknown values, numbers at the limits) have symbolic holes. json_lexer drives the lexer itself with store/restore.''', 'none needed: the properties of accesses are decided by the engine; no allocation may stay alive',
  '4 to 7 bytes, texts of up to 40 characters with 1 to 3 arbitrary bytes', 'one byte more', 'texts longer than the bound; arbitrary texts read as floating-point numbers (C08 reads chosen ones); recursion deeper than the engine limit of 400 calls', '40-70 s')
n('C07', 'json_string_back writes and reads every string of n bytes (and strings with a fixed prefix), alone and inside of vectors, maps, sets and optionals; json_string_long strings of 13 to 300 characters with symbolic ones at both ends and inside.', 'the original string; the written text itself is checked by a lazy reference of JSON string syntax', '4 bytes', '5 bytes', 'escape sequences which the library does not produce; C strings with a null inside', '33 s')
n('C08', 'every text up to the bound is read as each scalar type and, independently of it, all values of char/short/bool and bands of values of the wide types (around zero, powers of ten and the limits) are written and read back. json_float_back and json_float_list write and read every normal float and double (all bits symbolic) and zero: the C library is replaced by a contract, its notation of a number being a text of the right kind (fixed or with an exponent, bounded by the buffer) which carries the bits that are determined by the number of digits printed. json_float_text reads chosen texts with a digit left open.', 'a reference reader over the same symbolic bytes, evaluated lazily',
  '5 bytes (4 for characters); limits with up to 20 digits', '6 bytes', 'negative text for unsigned targets, text after a numeric prefix ("12abc"), numbers with more than 6 digits except at the limits; subnormal numbers, infinities and NaN; the conversion between decimal and binary itself (it belongs to the C library)', '20 s')
n('C09', 'containers (vector, list, set, map, multimap, optional, pointer, C array, nested ones, Diagnostic) of every size up to the bound with symbolic elements are written and read back; json_list_long does so with 11 to 300 elements, also listed by indexes in other orders; json_mixed_back takes 14 kinds of nested containers and other elements, read into targets which are not empty; arbitrary texts and texts with holes are read and compared with the reference.', 'the original container; the lazy reference reader',
  '3 elements, texts of 5-6 bytes, 9 shapes with holes', '4 elements, texts of 6-7 bytes', 'kinds of brackets inside of skipped values; maps in the form of arrays; keys of maps which are containers (they are written but cannot be read); what the target holds after a refusal', '35 s')
n('C10', 'the verdict (accepted or refused, error reported or not) is compared with the reference grammar for all texts up to the bound for 14 target types, and for structured texts with arbitrary bytes at the holes.', 'lazy recursive descent over symbolic bytes, with three answers: valid, invalid and "not specified" for the leniencies listed on the right',
  '4-5 bytes per type, 13 shapes with holes', '5-6 bytes', 'leniencies which are not judged: numeric prefixes, quoted scalars, kinds of brackets in skipped values', '40 s')
n('C11', '''objects declared by the macros are written and read back with all permutations of their members, unknown members of every kind (including extensions and beginnings of known names), missing values, several classes behind one name key, and 1 to 20 fields; trait_map_* does so for static maps of traits, whose fields are the traits under their names.''', 'the fields; the text that has to be written',
  '2-4 members in every order, 20 fields', 'more nested objects', 'fields of Ty* written as a single object; names of fields with quotes or backslashes', '50 s')
n('C12', '''diag_history runs every sequence of insert, failing insert (vsnprintf fails, at the first or second call), clear, swap and move, with symbolic message bytes and arguments; diag_long inserts texts of 1 to 5000 characters, diag_many up to 260 messages and failures.
  vsnprintf is replaced by a model which is written in the harness.''', 'an array of (code, text)', '2 operations with 1 character', '2 with 3 and 3 with 1', 'conversions other than those used by the library; the arrow of iterators of messages (cannot be instantiated)', '75 s')
n('C13', '''trait_step starts from an arbitrary valid set of bits (the 64-bit word is symbolic) of descriptors with conflicting, overlapping and nested groups and applies one operation: by induction this covers all histories. trait_lists and trait_clash set and unset several traits at once,
  trait_full uses all 64 bits.''', 'a table of conflicts written by hand', 'exact for the stated descriptors', 'the same', 'other descriptors (a descriptor is a type: each needs its own instance); several conflicting traits set at once: any result without conflict is accepted', '75 s')
n('C14', 'traitset_history and traitset_move run every sequence of operations with symbolic values and count live descriptions.', 'an array of optional values', '3 operations (2 before a move)', '4 (3)', 'longer histories', '32 s')
n('C15', '''gcd_small enumerates |a|,|b| <= n symbolically with the coefficients and checks the definition of gcd; gcd_wide, gcd_near use bands at the limits of int and long; gcd_zero every pair with a zero.''', 'divisibility, Bezout identity in 64 bits', 'n=12, bands of 2', 'n=40, bands of 7', 'pairs whose Euclid runs are long (the solver would have to decide chains of symbolic 64-bit divisions); operands at which a quotient overflows', '42 s')
n('C16', '''eq_complete: a symbolic assignment which satisfies the symbolic system must be represented by the solution (for some integer value of the parameter, computed by the harness); eq_sound: every value of the parameter gives an assignment which satisfies the system; eq_linked and the systems with
  4 columns chain equations over shared columns. If a system is reported as unsolvable, its equations before the reported number are solved alone, and with the next one they are not. Coefficients and right-hand sides are symbolic, columns fork.''', 'the equations themselves, evaluated in 64 bits', '1 equation with |coefficient| <= 6, 2 with <= 2, 3 with <= 1; 3 linked equations with fixed signs', 'the first coefficient is split over separate runs, ranges up to 30',
  'larger coefficients and systems (products of symbolic values make the queries hard); overflow of the types', '100 s')
n('C27', 'eq_instantiate: guards and monomials with symbolic values decide which equations and bindings remain.', 'evaluation of every guard and monomial', '2 rows', '3 rows', 'larger systems', '7 s')
n('C28', 'eq_reverse, eq_positive, eq_narrow: reversed and shifted solutions are compared with the original ones for symbolic values of the parameter.', 'the original solution evaluated at the corresponding value', '2 rows, |coefficient| <= 2', '3 rows', 'systems with rows which do not depend on the parameter (the library requires it)', '23 s')
n('C17', 'marray/marray_f of 1 to 4 dimensions with symbolic sizes up to the bound and symbolic indices: addresses of distinct index tuples differ, lie inside the storage, values are kept, copies and moves own their storage; marray_large, marrayf_large decide for dimensions of up to 300 that any two symbolic index tuples reach the same element iff they are equal.', 'arithmetic on indices', 'sizes up to 3 (2 dimensions), 2 (3 and 4 dimensions); addresses: 3 shapes up to 300', '4 and 3', 'larger sizes, element types with throwing constructors', '4 s')
n('C18', 'shrinkPair/restoreShrunkPair for several combinations of types, all values.', 'the definition (low half and high half)', 'exact', 'exact', 'types wider than 64 bits', '5 s')
n('C19', 'digit counts for all 8- and 16-bit values in several bases and all 32-bit values in base 1000, bands around every power of the base and the limits of int, long and their unsigned forms, masks for every number of bits, PrintBits texts, binary literals.', 'repeated division; the definition of masks', 'as listed', 'more bases, base 10 for 32 bits', 'numberOfDigits for types narrower than int with the zero-count form (cannot be instantiated); 64-bit values in small bases', '36 s')
n('C20', 'every text of n bytes (and texts of 14 to 1022 with symbolic characters at the ends and inside) is quoted and quoted again; objects of 1 to 4100 bytes are exchanged; all 256 characters are classified.', 'the definition', '5 bytes', '12 bytes', 'longer texts', '5 s')
n('C21', 'maps of five cells with symbolic values: every access path, every order of writes, visits in order, copies between maps with different sets of keys (also of values that a move empties), ownership of pointers, maps keyed by types and by traits.', 'an array indexed by key', '2 writes', '4 writes', 'other shapes of maps (each is a type)', '6 s')
n('C22', 'every tag of pairs and tuples reads and writes its element and no other, visits are in order, assignment and conversion keep elements; compile-time results are compared with their definition.', 'element values', 'exact for the shapes', 'the same', 'other shapes; get_tagged_tuple orders tags in reverse (not claimed)', '6 s')
n('C23', '''std::thread, mutex and condition_variable are replaced by models inside of the engine; every schedule within the preemption bound is explored together with spurious wake-ups; the client thread sends batches, closes at any moment, and the server answers any number of requests and leaves or moves its connection. Data races (vector clocks),
  use of a destroyed status, deadlocks and lost wake-ups are reported. conn_long sends up to 270 requests of up to 270 characters, joined or one by one.''', 'the list of requests: every request gets exactly one response, in order; F(request) while the server wants requests and REJECT afterwards', 'preemption bound 1 to 4, up to 2 messages, texts of 3 characters with every delimiter', '3 messages, 2 spurious wake-ups, texts of 4',
  'more preemptions than the bound; exceptions thrown by callbacks of the socket or by the requests of a server (a server itself may end by an exception which the thread catches, and there may be no thread for it); a delimiter of NUL appends NUL to responses; weak memory (races are reported instead)', '9 s')
n('C24', '''CSocket.cpp itself is executed over scripted system calls (in the harness): every call may fail, data arrives and leaves in pieces, descriptors are reused at once, connections run in threads which are scheduled by choices, descriptor 0 can be that of a connection or listen; data of up to 66000 bytes comes and goes in pieces of sizes around the limits of small counters; csock_dialog connects it with IntrusiveConnection.''', 'per connection: what was received, what was sent, when it was closed and what was reported',
  '2 faults, 4 bytes, 3 connections, preemption bound 1-2', '3 faults, 6 bytes', 'SIGPIPE (a thread which cannot be started is a fault), exceptions in callbacks, BufferSize 0, the Windows branch', '25 s')
n('C25', 'RedirectIO (also moved and assigned ones, and those of descriptor 0) over a model of stdio and descriptors (in the harness) in which every call may fail; histories of writes, diff, isDiff, setDiffPos, resetDiffPos, moves and destruction with symbolic bytes.', 'the contents of the modelled file and the expected position', '3 operations, 1-2 faults, long writes up to 1025 bytes after up to 300', '4 operations', 'diff() in Read mode; a moved-from object except isDiff; a descriptor that is closed initially', '4 s')
n('C26', 'ValuePtrWrapper histories of set, erase, exchange and reallocation of the container with counted destructors.', 'array of live values', '4 operations', '6 operations', 'exceptions', '6 s')
n('C29', 'IteratorDataAdaptor over arrays with symbolic elements and data; type lists compared with their definition; type_logic: constants, choice and classification of types in utility.h (structure only).', 'element and data', 'exact for 3 elements', 'the same', 'other iterator categories', '5 s')
n('C30', 'number_text: numbers near powers of ten and limits as solver variables, the text is parsed back; bounded_copy: symbolic characters, all lengths and rooms, exceptions are executed (copy_long: texts of 15 to 1023 characters, rooms around them); codes of errors of three applications (nested_codes: of five, which use each other) compared with each other (structure only: no solver variable); error_texts: texts of errors put together from their parts, names of types have symbolic characters.', 'parsed value; the copied text; distinctness', '8-bit offsets around 19 numbers, 4 characters', '6 characters', 'numbers farther from the listed ones; value.h, tree.h', '5 s')

n('C31', '''json_lexer compares kind, place, number form and unquoted range of every token of a symbolic text with a reference scanner; json_restore takes a snapshot of the lexer at any token of a text of listed tokens, moves it (to the end,
  to another token, to the start), nests a second snapshot and compares; json_checks asks each question about the first token of a symbolic text; json_skip skips brackets in symbolic texts and json_deep in texts longer and
  deeper than small counters.''', 'a lazy reference scanner (jsonref.h), snapshots, a stack of brackets',
  'texts of 4 characters (questions 3, brackets 5), 3 listed tokens, 300 levels or characters', '5 characters (brackets 6), 4 tokens, 5000 levels', 'longer symbolic texts; what is skipped between brackets which are not well nested', '75 s')
n('C32', '''Every allocation of an operation is a fault point: operator new of the harness (oom.h) forks there into success and std::bad_alloc, up to the bound of failures per operation. oom_queue runs histories of two queues, oom_diag of a list of messages, oom_marray constructs and assigns
  arrays, oom_traits attaches values to traits, oom_system adds equations to a system, solves it and reverses the solution, oom_helpers exchanges, quotes and constructs objects, oom_json and oom_json_object write and read values of 15 types, redirect_oom redirects, asks for changes and writes again. Live allocations and streams are counted at the end.''',
  'the same reference as without faults: a failed operation either reports the failure (std::bad_alloc, a refused message, an error of the parser) or has its full effect; all other objects are as before',
  '1 failure per operation; histories of 2 (queue), 4 (messages, equations) and 3 (traits) operations', '2 failures (messages 3); histories of 3, 6, 6 and 4 operations',
  'allocations of malloc and stdio; a system whose solution fails midway (it must be built again), static maps and legacy headers; values of pointers to pointers (elements of the array which were read before a failure are not reachable for the parser); exceptions of copied elements', '30 s')
