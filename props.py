PROPS = {}
def prop(id, **kw):
    PROPS[id] = kw
def entry(name, quick=None, thorough=None, **kw):
    return dict(name=name, quick=quick or [{}], thorough=thorough or quick or [{}], **kw)

prop('C01', file='tq.cpp',
     entries=[entry('tq_history', [dict(ops=5)], [dict(ops=7)], reach=['history', 'itself'], weight=5),
              entry('tq_long', [dict(n=68)], [dict(n=135)], reach=['blocks']), entry('tq_via', [dict(n=3, ops=3), dict(n=100, ops=1)], [dict(n=4, ops=4), dict(n=100, ops=2)], reach=['via'])])
prop('C02', file='tq.cpp',
     entries=[entry('tq_copy', [dict(n=3), dict(n=2, via=1), dict(n=100)], [dict(n=4), dict(n=3, via=1), dict(n=100)], reach=['copy', 'swap']),
              entry('tq_moved_from', [dict(), dict(n=100)], reach=['moved'])])
prop('C03', file='tq.cpp', entries=[entry('tq_compare', [dict(n=3), dict(n=2, via=1), dict(n=100)], [dict(n=5), dict(n=3, via=1), dict(n=100, via=1)], reach=['equal', 'less'])])
prop('C04', file='chain.cpp', entries=[entry('chain_edit', [dict(k=4, ops=1), dict(k=3, ops=2)], [dict(k=5, ops=1), dict(k=4, ops=2)], reach=['spliceNext', 'splicePrev', 'mergeNext', 'mergePrev'])])
prop('C05', file='chain.cpp', entries=[entry('chain_iter', [dict(k=3, steps=3)], [dict(k=4, steps=4)], reach=['end', 'inside']), entry('chain_walk', [dict(k=4)], [dict(k=5)], reach=['walk3'])])
prop('C15', file='eq.cpp', entries=[entry('gcd_small', [dict(n=12)], [dict(n=40)], reach=['gcd', 'coprime']), entry('gcd_zero', reach=['gcd']), entry('gcd_wide', [dict(n=2)], [dict(n=7)], reach=['gcd']), entry('gcd_near', [dict(n=2, bs=2, sh=2)], [dict(n=8), dict(n=4, bs=6)], reach=['gcd'])])
A0 = lambda r, **kw: [dict(a0=a, r=r, **kw) for a in range(-r, r + 1)]
def EQS(c):
    m = [dict(mode=0)] if not c else [dict()]
    r = [dict(rows=1, r=6, **x) for x in m] + [dict(rows=2, r=1, **x) for x in m] + [dict(rows=2, r=2, cols=k, **x) for k in (1, 2, 3) for x in m] + [dict(rows=3, r=1, cols=1, **x) for x in m]
    return r
prop('C16', file='eq.cpp', entries=[
    entry('eq_complete', EQS(False) + [dict(rows=2, r=1, mode=1), dict(rows=2, r=1, mode=2, cols=2)], [dict(rows=3, cols=4)] + A0(2, rows=2, cols=1, lim=30) + A0(2, rows=2, cols=2, lim=30) + A0(1, rows=3, cols=2) + [dict(rows=1, r=20), dict(rows=2, r=2, mode=1, cols=1), dict(rows=2, r=2, cols=2, mode=2)], reach=['two'], reach_if=lambda q: q.get('a0', 1) != 0),
    entry('eq_sound', EQS(True) + [dict(rows=2, r=1, guard=0), dict(rows=3, cols=4, guard=0)], [dict(rows=3, cols=4, guard=0, pick=3), dict(rows=3, cols=4, guard=1, b1=3)] + A0(2, rows=2, cols=1, lim=30) + A0(2, rows=2, cols=2, lim=30) + A0(1, rows=3, cols=2) + [dict(rows=1, r=20)], reach=['solved', 'unsolvable'])])
prop('C27', file='eq.cpp', entries=[entry('eq_instantiate', [dict(rows=2)], [dict(rows=3)], reach=['some', 'all', 'none']), entry('eq_print', reach=['printed', 'discarded']), entry('eq_log', reach=['solved'])])
prop('C28', file='eq.cpp', entries=[entry('eq_reverse', [dict(rows=2, r=2)], [dict(rows=3, r=2)], reach=['reversed']), entry('eq_positive', reach=['shifted', 'same']), entry('eq_narrow', reach=['r', 'p'])])
prop('C17', file='arrays.cpp', entries=[entry('marray2', [dict(max=3)], [dict(max=4)], reach=['distinct', 'assigned']), entry('marray3', [dict(max=2)], [dict(max=3)], reach=['distinct', 'assigned']), entry('marray4', [dict(max=2)], reach=['distinct', 'assigned']),
     entry('marrayf2', [dict(max=3)], [dict(max=4)], reach=['distinct', 'assigned']), entry('marrayf3', [dict(max=2)], [dict(max=3)], reach=['distinct', 'assigned']), entry('marrayf4', [dict(max=2)], reach=['distinct', 'assigned']), entry('marray_large', reach=['distinct']), entry('marrayf_large', reach=['distinct'])])
prop('C18', file='util.cpp', entries=[entry('pair_u32_u64', reach=['packed']), entry('pair_mixed', reach=['packed', 'refused']), entry('pair_partial', reach=['partial']), entry('pair_place', reach=['place'])])
prop('C19', file='util.cpp', entries=[entry('digits8', reach=['zeros', 'long']), entry('digits16', [dict(base=10), dict(base=7)], [dict(base=b) for b in (3, 5, 7, 10, 12, 60, 1000)], reach=['zeros', 'long'], reach_if=lambda q: q['base'] < 40), entry('digits64', [dict(base=b) for b in (16, 256)], [dict(base=b) for b in (2, 4, 8, 16, 256, 65536)], reach=['zeros', 'long'], reach_if=lambda q: q['base'] <= 256),
     entry('digits_near', [dict(near=20)], [dict(near=100)], reach=['near', 'zeros', 'long']), entry('digits32', [dict(base=1000)], [dict(base=10)], reach=['zeros']), entry('masks', reach=['full']), entry('bit_text', reach=['printed']), entry('literals', reach=['literals'])])
prop('C20', file='util.cpp', entries=[entry('quote_text', [dict(n=5)], [dict(n=12)], reach=['quoted', 'added']), entry('quote_long', reach=['quoted', 'added']), entry('swap_memory', reach=['swapped']), entry('swap_large', reach=['swapped']), entry('whitespace', reach=['ws'])])
prop('C12', file='diag.cpp', entries=[entry('diag_history', [dict(ops=2, n=1)], [dict(ops=2, n=3), dict(ops=3, n=1)], reach=['inserted', 'failed', 'cleared', 'swapped']), entry('diag_many', reach=['many'], max_steps=20000000), entry('diag_long', reach=['long'], max_steps=20000000)])
prop('C13', file='trait.cpp', entries=[entry('trait_step', reach=['step']), entry('trait_lists', reach=['lists']), entry('trait_clash', reach=['clash']), entry('trait_enum', reach=['enumerated']), entry('trait_transfer', reach=['updated', 'added']), entry('trait_masks', reach=['masks']), entry('trait_full', reach=['full'])])
prop('C14', file='trait.cpp', entries=[entry('traitset_queries', reach=['queries']), entry('traitset_history', [dict(ops=3)], [dict(ops=4)], reach=['attached', 'released', 'updated']), entry('traitset_move', [dict(ops=2)], [dict(ops=3)], reach=['moved', 'assigned'])])
prop('C21', file='maps.cpp', entries=[entry('map_access', [dict(ops=2)], [dict(ops=4)], reach=['visited']), entry('map_transfer', reach=['transferred']), entry('map_pointers', reach=['pointers']), entry('map_values', reach=['copied', 'moved']), entry('type_map', reach=['types']), entry('trait_map', reach=['traits', 'stored'])])
prop('C22', file='maps.cpp', entries=[entry('tagged_access', reach=['tags']), entry('tuples', reach=['tuples']), entry('inserters', reach=['ins']), entry('type_list_algebra', reach=['algebra'])])
prop('C06', params=dict(oracle=0), groups=[dict(file='json.cpp', entries=[
    entry('json_lexer', [dict(n=4)], [dict(n=5)], reach=['lexed', 'restored']), entry('json_int_text', [dict(n=6)]), entry('json_unsigned_text', [dict(n=5)]), entry('json_long_text', [dict(n=5)]), entry('json_ulong_text', [dict(n=5)]), entry('json_limits'), entry('json_bool_text', [dict(n=6)]), entry('json_bool_quoted'), entry('json_char_text', [dict(n=6)]), entry('json_string_text', [dict(n=6)]), entry('json_cstring_text', [dict(n=5)]),
    entry('json_vector_text', [dict(n=6)]), entry('json_pointer_text', [dict(n=6)]), entry('json_vector_keys', [dict(keys=2,len=2), dict(keys=3,len=1)]), entry('json_set_text', [dict(n=6)]), entry('json_map_text', [dict(n=7)]), entry('json_multimap_text', [dict(n=6)]), entry('json_map_holes'), entry('json_optional_text', [dict(n=6)]), entry('json_nested_text', [dict(n=5)])]),
  dict(file='jsonobj.cpp', entries=[entry('obj_text', [dict(n=7)], [dict(n=8)]), entry('obj_named_holes', [dict(text=k) for k in range(3)], reach=['none']), entry('obj_holes', [dict(text=k) for k in range(3)]), entry('json_holes', [dict(kind=k) for k in range(10)], thorough_only=True)])])
prop('C07', file='json.cpp', entries=[entry('json_string_back', [dict(n=4)], [dict(n=5)], reach=['string']), entry('json_string_long', reach=['long']), entry('json_string_prefix', reach=['prefix']), entry('json_cstring_back', [dict(n=4)], reach=['string']), entry('json_strings_back', reach=['vector', 'map', 'optional', 'set'])])
prop('C08', file='json.cpp', params=dict(oracle=2), entries=[entry(n, [dict(n=k - 1)], [dict(n=k)]) for n, k in (('json_int_text', 6), ('json_unsigned_text', 6), ('json_long_text', 6), ('json_ulong_text', 6), ('json_bool_text', 6), ('json_char_text', 5), ('json_string_text', 6))] + [entry('json_limits'), entry('json_bool_quoted'), entry('json_scalars_back', reach=['number']), entry('json_short_back', reach=['number'], thorough_only=True), entry('json_float_back', reach=['double', 'float']), entry('json_float_list', reach=['map', 'vector']), entry('json_float_text', reach=['double', 'float', 'refused'])])
prop('C09', params=dict(oracle=2), groups=[dict(file='jsonobj.cpp', entries=[entry('json_holes', [dict(kind=k) for k in range(9)], reach=['accepted'])]), dict(file='json.cpp', entries=[entry('json_vector_text', [dict(n=5)], [dict(n=6)], reach=['array', 'object', 'empty']), entry('json_set_text', [dict(n=5)], [dict(n=6)]), entry('json_map_text', [dict(n=6)], [dict(n=7)]), entry('json_optional_text', [dict(n=5)], [dict(n=6)]), entry('json_pointer_text', [dict(n=5)], [dict(n=6)]), entry('json_map_holes'),entry('json_list_back', [dict(), dict(n=2, neg=1, hi=99)], [dict(neg=1), dict(n=2, neg=1, hi=255)], reach=['vector', 'set', 'array']), entry('json_list_long', [dict(what=k) for k in range(7)], max_steps=30000000), entry('json_map_back', [dict(), dict(n=1, neg=1, hi=99)], reach=['map', 'multimap', 'nested']), entry('json_optional_back', reach=['optional', 'elements', 'vector', 'string']), entry('json_nested_back', reach=['nested']), entry('json_mixed_back', reach=['mixed']), entry('json_sparse_back', reach=['sparse', 'dense', 'none']), entry('json_sparse_more', reach=['set', 'map', 'multimap', 'nested']), entry('json_diagnostic_back', reach=['diagnostic'])])])
prop('C26', file='util.cpp', entries=[entry('value_ptr', [dict(ops=4)], [dict(ops=6)], reach=['erased', 'swapped', 'several'])])
prop('C30', file='legacy.cpp', entries=[entry('number_text', [dict(near=127)], reach=['negative', 'long']), entry('bounded_copy', [dict(n=4)], [dict(n=6)], reach=['refused', 'copied']), entry('copy_long', reach=['refused', 'copied']), entry('error_codes', reach=['codes']), entry('exception_codes', reach=['codes']), entry('nested_codes', reach=['nested']), entry('error_texts', reach=['texts'])])
prop('C29', file='util.cpp', entries=[entry('iter_data', reach=['end']), entry('type_lists', reach=['lists']), entry('type_logic', reach=['logic'])])

prop('C31', file='json.cpp', entries=[entry('json_lexer', [dict(n=4)], [dict(n=5)], reach=['lexed', 'restored']), entry('json_restore', [dict(k=3)], [dict(k=4)], reach=['keyword', 'other']), entry('json_checks', [dict(n=3)], [dict(n=5)], reach=['yes', 'no']), entry('json_skip', [dict(n=5)], [dict(n=6)], reach=['closed', 'open', 'nothing', 'other']), entry('json_deep', [dict(k=300)], [dict(k=5000)], reach=['deep'], max_steps=20000000)])

TEXTS = [('json_int_text', 6), ('json_unsigned_text', 5), ('json_long_text', 5), ('json_ulong_text', 5), ('json_bool_text', 6), ('json_char_text', 6), ('json_string_text', 6), ('json_cstring_text', 5), ('json_vector_text', 6), ('json_set_text', 6), ('json_map_text', 6), ('json_multimap_text', 6), ('json_optional_text', 6), ('json_nested_text', 5)]
prop('C10', groups=[
  dict(file='json.cpp', entries=[entry(n, [dict(n=k - 1, oracle=1)], [dict(n=k, oracle=1)]) for n, k in TEXTS] + [entry('json_limits', [dict(oracle=1)]), entry('json_bool_quoted', [dict(oracle=1)]), entry('json_float_text', [dict(oracle=1)], reach=['double', 'float', 'refused']), entry('json_map_holes', [dict(oracle=1)]), entry('json_vector_keys', [dict(keys=2, len=2, oracle=1), dict(keys=3, len=1, oracle=1)])]),
  dict(file='jsonobj.cpp', entries=[entry('json_holes', [dict(kind=k, oracle=1) for k in range(10)], reach=['accepted', 'refused']), entry('obj_holes', [dict(text=k, oracle=1) for k in range(3)], reach=['accepted', 'refused'])])])
prop('C11', groups=[
  dict(file='jsonobj.cpp', entries=[entry('obj_members', reach=['known', 'unknown']), entry('obj_back', reach=['plain', 'named']), entry('obj_nested_back', [dict()], [dict(corners=3, by=3)], reach=['nested']), entry('obj_named', reach=['value', 'text', 'identifier', 'dog', 'human']), entry('obj_absent', reach=['absent']), entry('obj_sparse', reach=['some', 'none'])]),
  dict(file='jsontrait.cpp', entries=[entry('trait_map_back', reach=['numbers', 'texts']), entry('trait_map_keys', reach=['read']), entry('trait_map_bad', reach=['refused'])]),
  dict(file='jsonwide.cpp', entries=[entry('obj_wide', reach=['wide'])])])
prop('C25', file='redirect.cpp', entries=[entry('redirect_history', [dict(ops=3, faults=10)], [dict(ops=4, faults=12)], reach=['redirected', 'refused', 'written', 'diff', 'same', 'failed', 'changes', 'restored'], weight=5), entry('redirect_input', reach=['input', 'refused']), entry('redirect_positions', reach=['moved']), entry('redirect_long', reach=['long']), entry('redirect_move', reach=['moved', 'assigned'])])
RACE = ['data-race']
prop('C23', file='conn.cpp', threads=True, entries=[
    entry('conn_dialog', [dict(msgs=1), dict(msgs=2, rounds=3, texts=4, hows=1)], [dict(msgs=2), dict(msgs=3, rounds=4, texts=3, hows=1)], reach=['answered', 'refused', 'rejected', 'ended'], preempt=2, model_only_kinds=RACE),
    entry('conn_dialog', [dict(msgs=2)], [dict(msgs=3, texts=4, rounds=4)], reach=['answered', 'refused', 'rejected', 'ended'], preempt=1, model_only_kinds=RACE),
    entry('conn_dialog', [dict(msgs=1, spurious=1)], [dict(msgs=2, spurious=1), dict(msgs=1, spurious=2)], reach=['answered', 'refused', 'rejected', 'ended'], preempt=1, model_only_kinds=RACE),
    entry('conn_dialog', [dict(msgs=1, rounds=3, texts=2, hows=1)], [dict(msgs=1, rounds=2), dict(msgs=2, rounds=3, texts=1, hows=1)], reach=['answered', 'refused', 'rejected', 'ended'], preempt=4, model_only_kinds=RACE),
    entry('conn_assign', reach=['assigned'], preempt=3, model_only_kinds=RACE), entry('conn_plain', reach=['plain'], preempt=2, model_only_kinds=RACE), entry('conn_text', [dict(n=3)], [dict(n=4)], reach=['text', 'joined'], preempt=0, model_only_kinds=RACE), entry('conn_long', reach=['long'], preempt=0, model_only_kinds=RACE, max_steps=30000000),
    entry('conn_throw', [dict(), dict(spurious=1)], [dict(msgs=2, texts=4), dict(spurious=2)], reach=['thrown'], preempt=2, model_only_kinds=RACE), entry('conn_no_thread', reach=['no_thread'], preempt=0, model_only_kinds=RACE)])
prop('C24', file='csock.cpp', threads=True, cflags=['-DVF_CSOCKET="@REPO@/lib/Socket/CSocket/CSocket.cpp"'], entries=[entry('csock_start', [dict(), dict(zero=2)], reach=['failed']),
    entry('csock_serve', [dict(mode=m, faults=2, bytes=4, partials=2) for m in (0, 1, 2)] + [dict(mode=0, bytes=4, buffer=4), dict(mode=1, bytes=2, replies=3, faults=2), dict(mode=1, bytes=2, zero=1, faults=2), dict(mode=0, bytes=2, zero=2)], [dict(mode=m, faults=3, bytes=5, partials=3) for m in (0, 1, 2)] + [dict(mode=1, bytes=6, buffer=4, faults=2)], preempt=1, model_only_kinds=RACE, reach=['idle', 'close_error', 'receive_error', 'several', 'accept_error']),
    entry('csock_serve', [dict(mode=0, bytes=600, buffer=400, long=1), dict(mode=1, bytes=300, partials=2, buffer=400, long=1), dict(mode=0, bytes=66000, faults=0, buffer=0, long=1, shorts=0)], [dict(mode=0, bytes=600, buffer=400, long=1, shorts=2), dict(mode=1, bytes=300, partials=3, buffer=400, long=1, faults=2), dict(mode=2, bytes=600, buffer=257, long=1)], preempt=0, model_only_kinds=RACE, reach=['idle', 'several'], max_steps=30000000),
    entry('csock_serve', [dict(conns=2, bytes=1, max=1), dict(conns=2, bytes=2, max=2), dict(conns=3, bytes=1, max=2, faults=0)], [dict(conns=2, bytes=2, max=1, faults=2), dict(conns=3, bytes=1, max=2), dict(conns=3, bytes=2, max=0, faults=0)], preempt=2, model_only_kinds=RACE, reach=['idle']),
    entry('csock_serve', [dict(conns=2, bytes=2, mode=1, max=2)], [dict(conns=2, bytes=3, mode=1, max=0)], preempt=1, model_only_kinds=RACE, reach=['idle', 'replied', 'send_error', 'partly']),
    entry('csock_serve', [dict(threads=0, conns=2, bytes=1), dict(threads=0, conns=2, bytes=1, max=1, faults=2), dict(threads=0, conns=2, bytes=1, zero=1)], [dict(threads=0, conns=3, bytes=1, max=1, faults=2), dict(threads=0, conns=3, bytes=2, faults=2)], preempt=1, model_only_kinds=RACE, reach=['idle', 'no_thread']),
    entry('csock_dialog', [dict(faults=0, partials=0, bytes=3), dict(bytes=2)], [dict(faults=1, partials=1, bytes=3), dict(faults=0, partials=1, bytes=4)], preempt=1, model_only_kinds=RACE, reach=['rejected', 'replied']),
    entry('csock_dialog', [dict(faults=0, partials=0, bytes=2)], [dict(faults=0, partials=0, bytes=3)], preempt=2, model_only_kinds=RACE, reach=['rejected', 'replied'])])
OOMJ = [dict(what=i) for i in range(19)]
prop('C32', groups=[
  dict(file='oom.cpp', entries=[entry('oom_queue', [dict(ops=2)], [dict(ops=3), dict(ops=3, fails=2)], reach=['push', 'copy'], weight=3), entry('oom_diag', [dict(), dict(fails=2)], [dict(ops=6, fails=3)], reach=['insert']), entry('oom_marray', [dict(), dict(fails=2)], reach=['failed', 'done']), entry('oom_traits', [dict(ops=3)], [dict(ops=4), dict(ops=4, fails=2)], reach=['set'], weight=2), entry('oom_system', [dict(ops=4)], [dict(ops=6), dict(ops=5, fails=2)], reach=['push']), entry('oom_helpers', [dict(), dict(fails=2)], reach=['quote', 'object'])]),
  dict(file='oomjson.cpp', entries=[entry('oom_json', OOMJ, OOMJ + [dict(what=i, fails=2) for i in range(19)], reach=['read']), entry('oom_json_object', [dict()], [dict(), dict(fails=2)], reach=['read'])]),
  dict(file='redirect.cpp', entries=[entry('redirect_oom', [dict()], [dict(), dict(fails=2)], reach=['again'])])])
from notes import N as _N
for _k, _v in _N.items():
    PROPS[_k].setdefault('bounds', dict(quick=_v['quick'], thorough=_v['thorough']))
    PROPS[_k].setdefault('outside', _v['outside'])
