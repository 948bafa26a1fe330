# What each check builds and runs. 'scale' multiplies the number of cases of the tier.
def std(*mods, **kw):
    m = kw.pop('mul', 1.0)	# more cases of the quick tier, where they are cheap
    d = dict(modules=list(mods), runs=[
        dict(variant='rel', scale=6.0 * m, tscale=4.0),
        dict(variant='rel', mode='guard', scale=0.6 * m, tscale=0.4),
        dict(variant='san', scale=2.0 * m, tscale=1.5),
        dict(variant='rel3', scale=2.0, tscale=2.0, thorough_only=True),
    ])
    d.update(kw)
    return d

RULE = ('each case is one randomised history drawn from the seed; a behaviour signature is the hash of the operation, '
        'the size class and position class it ran at and its outcome class; distinct_nontrivial counts the distinct signatures')

MODS = ['c01_seq', 'c02_life', 'c03_mix', 'c04_block', 'c05_string', 'c06_search', 'c07_utf8', 'c08_assoc', 'c09_adapt', 'c10_algo', 'c11_sort', 'c12_binary', 'c13_hostile',
        'c14_otext', 'c15_itext', 'c16_file', 'c17_smart', 'c20_raw', 'c21_bitset', 'c22_a', 'c22_b', 'c22_c', 'c22_d', 'c23_num', 'c23_time', 'c24_except', 'c25_iter', 'c25_func']
MODS = [m + '.cc' for m in MODS]

# Of these the optimised build is checked on every change: raw storage, assembly, text and the mixture of everything
REL3 = [m + '.cc' for m in ('c02_life', 'c03_mix', 'c04_block', 'c05_string', 'c06_search', 'c07_utf8', 'c09_adapt', 'c12_binary', 'c14_otext', 'c15_itext', 'c16_file', 'c17_smart', 'c20_raw', 'c21_bitset', 'c22_d')]

PLAN = {
    'C03': dict(modules=MODS, rule=RULE, memory_only=True, runs=[
        dict(variant='san', scale=1.0, tscale=1.0), dict(variant='rel', mode='guard', scale=0.3, tscale=0.3),
        dict(variant='rel3', scale=0.6, quick_only=True, modules=REL3), dict(variant='rel3', scale=0.6, tscale=0.6, thorough_only=True), dict(variant='val', mode='valgrind', scale=0.03, tscale=0.03)]),
    'C25': std('c25_iter.cc', 'c25_func.cc', mul=6, rule=RULE),
    'C24': std('c24_except.cc', rule=RULE, runs=[dict(variant='rel', scale=24.0, tscale=8.0), dict(variant='rel', mode='guard', scale=6.0, tscale=1.0), dict(variant='san', scale=15.0, tscale=4.0), dict(variant='rel3', scale=1.0, tscale=1.0, thorough_only=True)]),
    'C23': std('c23_num.cc', 'c23_time.cc', rule=RULE, runs=[dict(variant='rel', scale=20.0, tscale=4.0), dict(variant='rel3', scale=9.0, tscale=3.0), dict(variant='san', scale=6.0, tscale=1.5)]),
    'C20': std('c20_raw.cc', rule=RULE, runs=[dict(variant='rel', scale=3.0, tscale=4.0), dict(variant='rel3', scale=2.0, tscale=3.0), dict(variant='san', scale=1.5, tscale=1.5), dict(variant='val', mode='valgrind', scale=0.04, tscale=0.04)]),
    'C19': dict(modules=['c19_oom.cc'], rule=RULE, runs=[dict(variant='rel', scale=8.0, tscale=2.0), dict(variant='rel', mode='guard', scale=1.2, tscale=0.3), dict(variant='rel3', scale=1.0, tscale=1.0, thorough_only=True)]),
    'C18': dict(modules=['c18_atomic.cc', 'c18_private.cc'], rule=RULE, runs=[dict(variant='san', scale=1.0, shards=2), dict(variant='rel', scale=5.0, tscale=4.0, shards=3), dict(variant='tsan', scale=3.0, tscale=3.0, shards=3), dict(variant='rel3', scale=2.0, tscale=2.0, shards=2)]),
    'C22': std('c22_a.cc', 'c22_b.cc', 'c22_c.cc', 'c22_d.cc', 'c22_e.cc', mul=40, rule=RULE),
    'C21': std('c21_bitset.cc', mul=12, rule=RULE),
    'C17': std('c17_smart.cc', mul=12, rule=RULE),
    'C16': std('c16_file.cc', mul=2.5, rule=RULE),
    'C04': std('c04_block.cc', mul=3, rule=RULE),
    'C15': std('c15_itext.cc', mul=3, rule=RULE),
    'C14': std('c14_otext.cc', mul=10, rule=RULE),
    'C13': std('c13_hostile.cc', rule=RULE, runs=std()['runs'] + [dict(variant='val', mode='valgrind', scale=0.15, tscale=0.1)]),
    'C12': std('c12_binary.cc', mul=2, rule=RULE),
    'C11': std('c11_sort.cc', mul=2, rule=RULE),
    'C10': std('c10_algo.cc', mul=2.5, rule=RULE),
    'C07': std('c07_utf8.cc', mul=5, rule=RULE),
    'C06': std('c06_search.cc', mul=6, rule=RULE),
    'C05': std('c05_string.cc', mul=6, rule=RULE),
    "C02": std("c02_life.cc", mul=10, rule=RULE),
    "C09": std("c09_adapt.cc", mul=3, rule=RULE),
    "C08": std("c08_assoc.cc", rule=RULE),
    'C01': std('c01_seq.cc', mul=2, rule=RULE),
}
