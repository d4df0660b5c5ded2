#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 spec.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS
L = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, observe=(), na=None, note=None):
    assert len(title) <= 80, (id, len(title))
    L.append((dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                   why_tests_cant=' '.join(why.split()),
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), note))
    if na:
        NA[id] = na
I = 'include/bcl/'
NOT = 'No test in the repository touches this part; '

P('C01', 'Transparent queue behaves as a FIFO for every operation history',
  """After any sequence of construction, push, emplace and pop, also on a queue whose contents were copied, moved or swapped into it, the queue reports the number of stored pointers, emptiness, its oldest and
  newest element and yields elements exactly once in insertion order, regardless of when it switches from the inline to the heap representation.
  Popping an empty queue yields a null pointer, and no storage is lost or released twice.""",
  ['inputs', 'histories'], 'all pointer values (null included) and all operation histories up to the bound, including those which cross the storage blocks of the heap representation',
  'The five tests build queues of at most three elements and look at one comparison each; pop, emplace, representation changes and stored nulls are not sampled.',
  [I + 'transparent_queue.h'], [('two-state representation', I + 'transparent_queue.h: push/pop/emplace')], ['size()', 'front()', 'back()', 'pop()'])
P('C02', 'Copying, moving, assigning and swapping queues preserves their contents',
  """A copy holds the same sequence and later changes of either side do not show in the other; a move or assignment transfers the whole sequence, leaves a moved-from source
  an empty usable queue and frees what the target owned; swap exchanges the two sequences. Assigning or swapping a queue with itself changes nothing.""",
  ['inputs', 'histories'], 'every pair of reachable source and target states (either representation, any pointers) and every one of the operations, followed by further use of both',
  'Tests never copy, move, assign or swap a queue.', [I + 'transparent_queue.h'],
  [('ownership of the heap representation', I + 'transparent_queue.h: constructors, operator=, swap, destructor')])
P('C03', 'Queue comparisons agree with comparison of element sequences',
  """Equality and the orderings of two queues give the result of comparing the stored pointer sequences element by element (lexicographically for the
  orderings), whatever representation each side is in. The relations are mutually consistent.""",
  ['inputs', 'histories'], 'all pairs of queues up to the bound in every representation, all pointer values',
  'Tests compare three fixed pairs; mixed representations reached by popping are not sampled.', [I + 'transparent_queue.h'],
  [('operator== / operator<', I + 'transparent_queue.h')])
P('C04', 'Splicing and merging chains links exactly the intended neighbours',
  """Splicing a node next to or before another one inserts it there between that node and its former neighbour; merging makes the chain beginning (ending) at a node follow (precede) another one.
  A node taken from its former place is linked to the new neighbours only, and what stood before and after it is left as separate, well formed chains. Next and previous links are always
  inverse to each other; links not named by the edit, node contents and chains with another tag do not change. Passing no node (null) cuts the chain.""",
  ['inputs', 'histories'], 'all sets of chains over the bounded number of nodes, all pairs of nodes and all edit histories up to the bound, through ChainTraits and through iterators', NOT + 'a handful of examples would not cover the position cases (ends, adjacent, own neighbours).',
  [I + 'Chain.h'], [('splice/merge link updates', I + 'Chain.h: ChainTraits::spliceNext/splicePrev/mergeNext/mergePrev')], ['ChainTraits::getNext', 'ChainTraits::getPrev'])
P('C05', 'Chain iteration visits the chain nodes in order in both directions',
  """Iterating from the start of a chain visits every node once in link order and stops at the end; iterating backwards visits the same nodes in reverse. Increments and decrements
  of plain and constant iterators move to the next and the previous node, post forms return the old position, and iterators compare equal (to iterators and to nodes) exactly at the same node.""",
  ['inputs', 'histories'], 'all chains and step sequences up to the bound', NOT + 'iterators are templates that are never instantiated by the tests.',
  [I + 'Chain.h'], [('ChainIterator/ChainIteratorC', I + 'Chain.h')])
P('C06', 'JSON scanning and parsing of arbitrary text is memory safe and terminates',
  """For every text, however malformed, scanning and parsing it into any supported type finishes, never reads or writes outside the objects involved, never uses
  indeterminate or released storage and releases everything it allocated. Parsing returns true exactly when no error is recorded.""",
  ['inputs'], 'all byte strings up to the bound, for each supported target type', 'No test parses JSON; malformed texts are an unbounded input space.',
  [I + 'Json.h'], [('Lexer/Parser cursor handling', I + 'Json.h')])
P('C07', 'JSON strings survive writing and reading back',
  """Any string written as JSON and read back is the same string, including quotes, backslashes, control characters and text that looks like JSON syntax, alone or as an element of a container.
  The written form is one string token without raw control characters which is consumed as a whole; writing appends to what was written before.""",
  ['inputs'], 'all byte strings up to the bound (null free for C strings)', 'No test writes or reads JSON strings.', [I + 'Json.h'], [('Traits<std::string> escape/unescape', I + 'Json.h')])
P('C08', 'JSON scalars survive writing and reading back; bad scalars are rejected',
  """Booleans, characters, integers and finite floating-point numbers (normal ones and zero, bit by bit) written as JSON are read back as the same value. A text accepted as a scalar yields exactly the value it denotes; a number out of the range
  of the target type is reported as an error rather than read as some other value.""",
  ['inputs'], 'all values of the narrow types and bands around zero and the limits of the wide ones, all texts up to the bound', 'No test reads or writes JSON scalars.', [I + 'Json.h'], [('Traits of scalar types', I + 'Json.h')])
P('C09', 'JSON containers survive writing and reading back',
  """Sequences, arrays, sets, maps, multimaps, pointers to arrays, optional values and diagnostics written as JSON are read back equal to the original. A container
  read from an accepted text holds exactly the elements of the text at their positions, whatever was in the container before and whether they are listed or indexed by keys, and no element is left indeterminate.""",
  ['inputs'], 'all container sizes up to the bound with arbitrary small elements, all texts up to the bound', 'No test reads or writes JSON containers.', [I + 'Json.h'], [('Traits of containers', I + 'Json.h')])
P('C10', 'Only well formed JSON is accepted and every refusal is reported',
  """Parsing succeeds exactly for the texts that are well formed for the target type: brackets match, items are separated by single commas, keys by single colons, indexes are valid and
  nothing but space follows the value. Success comes without errors, failure with at least one.""",
  ['inputs'], 'all texts up to the bound for scalars, strings and containers, and structured texts with holes for deeper values', 'No test parses JSON, valid or not.', [I + 'Json.h', I + 'Diagnostic.h'], [('Parser error propagation', I + 'Json.h')])
P('C11', 'JSON objects declared by the user round trip whatever the key order',
  """An object with declared fields is written under its name with all fields in the declared order and read back with every field equal; the result depends neither on the order of the keys nor on spaces, and
  unknown keys are skipped without touching any field. Static maps of traits are objects whose fields are named by the traits. When several objects are known to a parser, the name key selects the type wherever it stands; unknown names and malformed texts yield no object and an error.""",
  ['inputs'], 'all field values within bounds, permutations of keys, short unknown keys and all numbers of fields the macros support', 'No test declares a JSON object.', [I + 'Json.h', I + 'JsonObjectMacros.h', I + 'cell.h'], [('key dispatch over a static map', I + 'Json.h, ' + I + 'JsonObjectMacros.h')])
P('C12', 'Diagnostic lists keep every message in order until cleared',
  """A message inserted in a diagnostic list is kept with its kind, code, position and full formatted text; messages are counted and enumerated in insertion order in both directions. A message
  whose text cannot be formatted is counted as an internal error and nothing else changes. Clear empties a list, swap exchanges two lists, and every text is released exactly once.""",
  ['inputs', 'fault_sequences'], 'all short message texts, boundary numbers, a failure of every formatting call and all histories up to the bound', NOT + 'ownership of the message text is invisible to an ordinary test.', [I + 'Diagnostic.h'], [('Diagnostic::insert', I + 'Diagnostic.h')])
P('C13', 'At most one of several conflicting traits is ever set',
  """From any state, setting a trait sets it and unsets the traits that conflict with it and only those, unsetting a trait or a group changes nothing else, and conflicting traits are never set
  together. Queries, comparison, copies and enumeration (of all traits, of a group, of conflicts) report exactly the set traits, and transfer between descriptors carries over the common ones.""",
  ['histories', 'inputs'], 'every state of descriptors with conflicting, overlapping and independent groups, every trait and operation; every trait of a descriptor that uses all 64 bits', NOT + 'compile-time machinery is instantiated nowhere in the tests.', [I + 'trait.h'], [('bit masks of TraitDescriptor', I + 'trait.h')])
P('C14', 'Values attached to traits follow the trait they are attached to',
  """A value attached to a trait is found by that trait and no other until the trait is unset, the value is replaced or released, or its set is destroyed, and it is destroyed exactly once unless released.
  Moving a set carries every value along, assignment and update drop the values of traits which are no longer set.""",
  ['histories', 'inputs'], 'all histories of set/unset/release/update/move up to the bound with arbitrary values', NOT + 'ownership errors are invisible to an ordinary test.', [I + 'trait.h'], [('TraitSet value ownership', I + 'trait.h')])
P('C15', 'Extended Euclid returns the gcd and matching Bezout coefficients',
  """For every pair of integers, the returned divisor is not negative, is zero only for two zeros, divides both numbers, and equals their combination with the returned
  coefficients. No input leads to division by zero or non-termination.""",
  ['inputs'], 'all pairs of integers in the stated bands, for int and long long', NOT + 'sampled pairs cannot cover sign and zero combinations.', [I + 'Equation.h'], [('euclidGCD', I + 'Equation.h')])
P('C16', 'Solving a system of binomial equations keeps exactly its solutions',
  """After solving, an assignment of the variables satisfies all instantiated equations exactly when it is described by the computed solution with some integer values of the parameters; an inconsistent
  system is reported by the number of the equations which precede the first one without a common solution. Every variable is given at most once, with a unit coefficient. Solving never divides by zero or reads outside the system.""",
  ['inputs'], 'all systems with coefficients, constants and columns in the stated range, all assignments in range', NOT + 'the coefficient space cannot be sampled.', [I + 'Equation.h'], [('BinomialSystem::solve', I + 'Equation.h')])
P('C17', 'Multi-dimensional arrays address every element once',
  """Distinct index tuples within the declared sizes reach distinct elements inside the storage; what is written at a tuple is read back there
  and nowhere else. Moving or assigning an array moves all elements and releases storage exactly once.""",
  ['inputs', 'histories'], 'all sizes up to the bound for two to four dimensions and all index tuples and values', NOT + 'aliasing is not visible in one example.', [I + 'marray.h', I + 'marray_f.h'], [('index linearisation', I + 'marray.h, ' + I + 'marray_f.h')])
P('C18', 'A pair squeezed into one machine word is restored exactly',
  """Packing two integers into one word succeeds exactly when the bits of each fit in a half of the word; unpacking then gives both back. A refused pair leaves the word unchanged, and the word may take the place of one of the values. Packing and unpacking never touch storage outside the word and the values.""",
  ['inputs'], 'all pairs of values of several combinations of types', NOT + 'bit-level faults show for few values.', [I + 'utility.h'], [('shrinkPair/restoreShrinkedPair', I + 'utility.h')])
P('C19', 'Digit counts, bit masks and binary literals equal their definition',
  """The number of digits, of trailing zeros, the masks of lower bits, the binary text and the binary literals equal their mathematical definition for every argument of
  the type. No argument leads to non-termination or an out-of-range shift.""",
  ['inputs'], 'all arguments of the type (for wide types with the bases stated)', NOT + 'boundary values dominate.', [I + 'utility.h'], [('numeric helpers', I + 'utility.h')])
P('C20', 'Quoting is idempotent, memory exchange is exact, whitespace is classified',
  """Quoting returns a text which is already in quotes as it is and otherwise surrounds it by quotes and keeps it; quoting twice is quoting once. Exchanging two objects in memory
  exchanges every byte and nothing else, an object with itself included. A character is white space exactly if it is a space, a tab, a form feed, a vertical tab or a carriage return.""",
  ['inputs'], 'all texts up to the bound, all object contents for several sizes, all characters', NOT + 'off-by-one at block sizes is not sampled.', [I + 'utility.h'], [('quote, swapMemory, isWhitespace', I + 'utility.h')])
P('C21', 'Static maps associate every key with its own value',
  """A value stored under a key is found under that key only, and visiting visits every key once (in the declared order for static maps) with its own value; copies are independent, and copying or moving
  between maps transfers exactly the common keys. The i-th constructor argument initializes the i-th key.""",
  ['inputs', 'histories'], 'all values and operation orders up to the bound, for maps keyed by cells, types and traits', 'The examples are run by nobody; tests never build a static map.', [I + 'cell.h', I + 'trait.h'], [('cells linked by key type', I + 'cell.h')])
P('C22', 'Tagged pairs and tuples and tuple helpers address the named element',
  """Access by tag reads and writes the element with that tag and nothing else; iterating or applying over a tuple visits each element once in order; convertible pairs convert to
  their members, and type lists are merged, intersected, searched and reduced as defined.""", ['inputs'], 'all element values', NOT + 'a wrong index compiles and goes unnoticed when types agree.', [I + 'tagged.h', I + 'tuple_utils.h', I + 'convertible_pair.h', I + 'cell.h'], [('tag lookup', I + 'tagged.h')])
P('C23', 'A connection answers requests in order and exactly once under any schedule',
  """For every interleaving of client and server: each request, also one of several joined in a message and split at the delimiter, gets exactly one response, in order; it is the server's answer while the server wants requests
  and REJECT afterwards, followed by the delimiter. The server gets the text of every request it answers, evaluates nothing else and learns that the client has closed the connection. No side blocks forever,
  touches a released connection, releases it twice or never, or races with the other one; moving or assigning a connection passes it on, and the replaced one is closed.""", ['schedules', 'histories', 'inputs'], 'all interleavings up to the preemption bound (1 to 4) of dialogs of up to 2 (thorough: 3) messages, with spurious wake-ups; every text of up to 3 characters and every delimiter', NOT + 'schedules cannot be sampled.', [I + 'IntrusiveConnection.h'], [('condition variable handshake', I + 'IntrusiveConnection.h')], ['connect()', 'answer()', '~IntrusiveConnection()'])
P('C24', 'A socket server delivers exactly the received bytes, closes connections once',
  """Whatever the peer sends, however it is split, and whichever system call fails: the receive listeners get exactly the received bytes in order, each listener in order of registration; a message which is sent reaches the peer completely
  or a failure is reported and the connection is closed; the end of a connection is reported once to every listener, as a failure iff a call failed; every descriptor is closed exactly once and used neither afterwards nor by another thread.
  Events carry the addresses of their connection. The number of active connections stays within the limit, reuse of a descriptor is harmless, and a server which cannot start reports why and releases its descriptor.
  A connection which is served by an in-process connection answers every request once.""", ['inputs', 'fault_sequences', 'schedules'], 'all data up to 4 bytes (thorough: 6) per connection, all splittings into reads and partial writes, up to 2 (thorough: 3) failing system calls, up to 3 connections under all interleavings within the preemption bound', NOT + 'partial reads and writes, failing calls and schedules need a stubbed system.', ['lib/Socket/CSocket/CSocket.cpp', I + 'CSocket.h', I + 'Socket.h', I + 'IntrusiveConnection.h'], [('server loop', 'lib/Socket/CSocket/CSocket.cpp')], ['startServer()', 'SocketImp::run()'])
P('C25', 'Redirection owns its target file and reports exactly what was written',
  """While output of a descriptor is redirected it reaches the target file, a difference is reported exactly when something was written since the last set position, and the difference text is exactly those bytes.
  Whatever call fails, the failure is recorded as an error and no wrong data is returned; every opened file is closed exactly once and not used afterwards, also when redirections are moved or assigned; the redirected descriptor stays open.""",
  ['inputs', 'fault_sequences'], 'all contents up to the bound and all failures of one or two adjacent file operations', NOT + 'faulty files need a stubbed library.', [I + 'RedirectIO.h'], [('ownership of mFile, mDiffPos', I + 'RedirectIO.h')], ['isDiff()', 'diff()', 'errors()'])
P('C26', 'A registered pointer follows its value, which is destroyed once',
  """A value created in a wrapper with a registered pointer stays reachable through that pointer when the wrapper is moved, swapped, erased around or reallocated in a container; the wrapper behaves
  as the value it holds, the value is carried along unchanged and destroyed exactly once.""",
  ['inputs', 'histories'], 'all histories of insertion, removal, exchange and reallocation up to the bound', NOT + 'ownership errors are invisible to ordinary tests.', [I + 'ValuePtrWrapper.h'], [('ValuePtrWrapper', I + 'ValuePtrWrapper.h')])
P('C27', 'Instantiating a system keeps exactly the equations whose guards hold',
  """Instantiating a system keeps each equation exactly when all of its guards hold and none of its inverse guards does, adds the computed monomials with their current values to its free term and
  leaves its coefficients unchanged. Guards, monomials, all equations and instantiated equations are counted and enumerated as they were added, each once. What is printed names every equation with its coefficients, guards, monomials and their values,
  discarded ones apart, and printing or logging changes nothing.""",
  ['inputs'], 'all guard and monomial values, all numbers of guards and monomials up to the bound for systems of the stated size', NOT + 'guards of neighbouring equations interact through shared storage.', [I + 'Equation.h'], [('BinomialSystem::instantiate', I + 'Equation.h')])
P('C28', 'Reversed and shifted solutions describe the same assignments',
  """Reversing a solution scales each row so that all share one positive multiple of the parameter, which becomes the unknown of every row, and loses no row. Making free terms positive shifts all unknowns
  by the least common value for which no free term is negative, and changes nothing else. The type of columns does not limit the values of coefficients.""",
  ['inputs'], 'all solutions of the stated systems of equations', NOT + 'narrow column types and signs are not sampled.', [I + 'Equation.h'], [('reverseSolution, solutioWithPositiveConstant', I + 'Equation.h')])
P('C29', 'Iterators with attached data and list-of-types helpers match their definition',
  """An iterator with attached data visits the elements of the underlying one in order, yields each with the data and is equal to another exactly when position and data are equal. Index, count and membership
  of types in a list, number of array elements, application to every value in order and construction of owned objects from arguments match their definition, and so do logical
  constants of types, choice between types and their classification.""",
  ['inputs'], 'all element and data values', NOT + 'templates are never instantiated by the tests.', [I + 'IteratorDataAdaptor.h', I + 'utility.h'], [('IteratorDataAdaptor', I + 'IteratorDataAdaptor.h'), ('index_of, staticForeach, make_unique', I + 'utility.h')])

P('C30', 'Legacy texts and error codes: numbers, bounded copies, distinct codes',
  """The text of a number is its decimal form without leading zeros, for the least and the greatest number as well. A bounded copy either yields the whole text with its end inside the given room or fails with the error for copying of strings and
  writes nothing beyond the room. In one application different errors have different codes, with and without errors of the applications it uses (which may use other ones), and the type of an error is the most severe on its path. The text of an error names the application, the type, the code in this application and the description; a failed type cast names both types.""",
  ['inputs'], 'numbers in ranges around all powers of ten and both limits, all texts and rooms up to the bound; error lists of five applications, nested ones included', NOT + 'the legacy headers are compiled by nothing in the repository.', [I + 'legacy/text.h', I + 'legacy/exception.h', I + 'legacy/declaration.h'],
  [('ToTextAnsi, ToTextUnicode, CopyAnsi, CopyUnicode', I + 'legacy/text.h'), ('CodeOfError, TypeOfError, OffsetOfError', I + 'legacy/exception.h')], ['ToText()', 'CopyString()', 'IException::Code()'])

P('C31', 'The JSON lexer finds every token at its place and comes back to any stored one',
  """The lexer visits all tokens of any text in order; each has its kind (and a number its form), its first and last position and the position which follows, with quotes of a string discarded on request. The end is reported once per attempt to pass it.
  A new lexer has no current token. After any moves a stored position makes the same token current again with everything known about it, stored positions nest, and reading goes on after it. A question about the current token never moves the lexer and records an error exactly when the answer is no.
  Skipping stops at the bracket which closes the current one, at any depth and length, and fails if there is none.""",
  ['inputs'], 'all texts up to the bound, all moves between stored positions of texts made of listed tokens', NOT + 'the lexer is used by the parsers only and no test reaches it.', [I + 'Json.h'],
  [('Lexer::goToNext, storePosition, restorePosition, setPosition, skipInternal, check*', I + 'Json.h')], ['json::Lexer'])

P('C32', 'Exhaustion of memory loses nothing but the operation which has failed',
  """Whichever allocation of an operation fails, the operation either has its full effect or reports the failure: by std::bad_alloc, by a refused message that is counted as an internal error of diagnostics, or by an error of the parser.
  Nothing is released twice, leaked or lost: a queue keeps its elements in order, a list its messages, an array its elements, a set of traits the values of all traits which do not conflict with the new one, a system its equations and their solution, a redirected stream everything written and its position for changes; a target is closed if it cannot be redirected.
  As soon as there is memory the same operation succeeds: a JSON value is written and read completely.""",
  ['inputs', 'fault_sequences'], 'all places of failing allocations (up to the bound per operation) in all histories up to the bound', NOT + 'no test makes an allocation fail; the state which matters is the one after a failure in the middle of an operation.', [I + 'transparent_queue.h', I + 'Diagnostic.h', I + 'marray.h', I + 'trait.h', I + 'Json.h', I + 'RedirectIO.h', I + 'Equation.h', I + 'utility.h'],
  [('TransparentQueue::push, operator=', I + 'transparent_queue.h'), ('BinomialSystem::push_back, reverseSolution', I + 'Equation.h'), ('Diagnostic::insert', I + 'Diagnostic.h'), ('Parser::parse, unparse', I + 'Json.h'), ('RedirectIO::diff', I + 'RedirectIO.h'), ('TraitSet::set', I + 'trait.h')])

def main():
    ids = [p['id'] for p, _ in L]
    assert len(set(ids)) == len(ids)
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p, _ in L))
    checks = []
    na = []
    for p, note in L:
        i = p['id']
        if i in PROPS and i not in NA:
            q = PROPS[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                               technique=q.get('technique', 'symbolic execution of the compiled LLVM IR with z3, counterexamples replayed natively'),
                               level=q.get('level', 'model_checking'), level_note=note or q.get('level_note') or 'Every path of the encoded code within the stated bounds is decided by the engine and z3; trusted: clang 18 lowering, the models of libc/libstdc++ internals in harness/runtime*.cpp, the reference model in the harness. Nothing is claimed outside the bounds.'))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='Solver-based checking: engine/ is a symbolic executor for LLVM IR over z3; see DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
MISSED = {'C12-long-message': 'diag_long', 'C13-set-several': 'trait_clash', 'C15-narrow-quotient': 'gcd_near', 'C16-skip-after-swap': 'systems with 4 columns', 'C21-copy-drains': 'map_values', 'C11-prefix-of-name': 'obj_named with extended keys',
          'C24-forgotten-send-error': 'several replies to one request'}
def design():
    from notes import N
    t = open(os.path.join(V, 'design_head.md')).read()
    for p, note in L:
        i = p['id']; d = N[i]; q = PROPS[i]; ents = [e['name'] for g in q.get('groups') or [q] for e in g['entries']]
        t += '### %s %s\n\n%s  \n*Entries*: %s (%s).  \n*Oracle*: %s.  \n*Bounds*: quick: %s; thorough: %s.  \n*Outside*: %s.  \n*Cost (quick)*: %s.\n\n' % (
            i, p['title'], d['how'], ', '.join('`%s`' % x for x in dict.fromkeys(ents)), ', '.join(dict.fromkeys('`harness/%s`' % g['file'] for g in q.get('groups') or [q])), d['oracle'], d['quick'], d['thorough'], d['outside'].rstrip('.'), d['cost'])
    t += open(os.path.join(V, 'design_tail.md')).read()
    t += '| change | property | needs | caught by the check of the property |\n|---|---|---|---|\n'
    D = os.path.join(V, 'seeded')
    if os.path.isdir(D):
        for x in sorted(os.listdir(D)):
            m = json.load(open(os.path.join(D, x, 'meta.json')))
            t += '| %s | %s | %s | yes%s |\n' % (x, m['property'], m['needs'], '; missed first, added: ' + MISSED[x] if x in MISSED else '')
        open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
if __name__ == '__main__':
    main()
    design()
