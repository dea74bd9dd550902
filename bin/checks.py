COMMON_ASSUMPTIONS = []
def H(name, src, **kw):
    return dict(name=name, src=src, **kw)
PROPS = {
 'P01': dict(harnesses=[H('audit', 'p01_audit.cpp', quick=dict(time=60))]),
}
for _p, _f in (('P03', 3), ('P04', 4), ('P05', 5), ('P06', 6), ('P07', 7), ('P09', 9)):
    PROPS[_p] = dict(harnesses=[H('any', 'step.cpp', defs=['FOCUS=%d' % _f, 'GEN=0'], quick=dict(time=100)), H('layout', 'step.cpp', defs=['FOCUS=%d' % _f, 'GEN=1'], quick=dict(time=120), reach=['done', 'no_space'] if _p == 'P09' else ['done'])])

PROPS['P04']['harnesses'].append(H('types', 'types.cpp', max_wit=100, defs=['FOCUS=4'], quick=dict(time=60, wit=16), reach=['done']))
PROPS['P08'] = dict(harnesses=[H('types', 'types.cpp', max_wit=100, defs=['FOCUS=8'], quick=dict(time=60, wit=16), reach=['done'])])
PROPS['P10'] = dict(harnesses=[H('types', 'types.cpp', max_wit=100, defs=['FOCUS=10'], quick=dict(time=60, wit=16), reach=['done'])])

for _p, _f in (('P04', 4), ('P08', 8), ('P10', 10)):
    PROPS[_p]['harnesses'].append(H('lengths', 'strings.cpp', defs=['FOCUS=%d' % _f], quick=dict(time=100), reach=['done']))

PROPS['P10']['harnesses'] += [H('any', 'step.cpp', defs=['FOCUS=10', 'GEN=0'], quick=dict(time=25)), H('layout', 'step.cpp', defs=['FOCUS=10', 'GEN=1'], quick=dict(time=100))]
PROPS['P10']['harnesses'].append(H('growth', 'grow.cpp', quick=dict(time=60), reach=['done', 'overflow']))
PROPS['P03']['harnesses'].append(H('bighole', 'bighole.cpp', quick=dict(time=20), reach=['done']))
PROPS['P03']['harnesses'].append(H('bighole_known', 'bighole.cpp', defs=['FINDING'], quick=dict(time=20), finding=True))
PROPS['P07']['harnesses'].append(H('lengths', 'compact.cpp', quick=dict(time=60), reach=['done']))
PROPS['P02'] = dict(harnesses=[H('verdict', 'verdict.cpp', quick=dict(time=140), reach=['accepted', 'rejected']), H('chunks', 'verdict.cpp', defs=['CHUNKS=1'], quick=dict(time=60), reach=['accepted', 'rejected'])])
PROPS['P11'] = dict(harnesses=[H('scan', 'scan.cpp', quick=dict(time=100), reach=['done'])])
PROPS['P12'] = dict(harnesses=[H('any', 'read.cpp', defs=['GEN=0'], quick=dict(time=60), reach=['done', 'present']), H('layout', 'read.cpp', defs=['GEN=1'], quick=dict(time=60), reach=['done', 'present'])])
PROPS['P13'] = dict(harnesses=[H('integers', 'numbers.cpp', defs=['FLOATS=0'], quick=dict(time=60), reach=['stored', 'refused']), H('floats', 'numbers.cpp', defs=['FLOATS=1'], quick=dict(time=100), reach=['stored', 'refused']), H('reading', 'numbers.cpp', defs=['FLOATS=2'], quick=dict(time=60), reach=['stored'])])
PROPS['P13']['harnesses'] += [H('growing_integers', 'numbers.cpp', defs=['FLOATS=0', 'GROWING'], quick=dict(time=60), reach=['stored', 'refused']), H('growing_floats', 'numbers.cpp', defs=['FLOATS=1', 'GROWING'], quick=dict(time=100), reach=['stored', 'refused'])]
PROPS['P14'] = dict(harnesses=[H('preplaced', 'preplaced.cpp', max_wit=100, quick=dict(time=100, wit=16), reach=['done', 'no_space']), H('growing', 'preplaced.cpp', defs=['GROWING=1'], max_wit=100, quick=dict(time=100, wit=16), reach=['done'])])
PROPS['P15'] = dict(harnesses=[H('define', 'schema.cpp', defs=['IMPORT=0'], max_wit=60, quick=dict(time=100), reach=['done', 'refused']), H('import', 'schema.cpp', defs=['IMPORT=1'], max_wit=60, quick=dict(time=100), reach=['done', 'refused', 'imported'])])
PROPS['P15']['harnesses'].append(H('opaque_known', 'opaque.cpp', quick=dict(time=20), finding=True))
PROPS['P15']['harnesses'].append(H('tokens', 'tokens.cpp', quick=dict(time=60), reach=['done', 'refused']))
PROPS['P15']['harnesses'].append(H('large', 'schema_big.cpp', quick=dict(time=100), reach=['found', 'offsets', 'refused', 'too_far']))
PROPS['P16'] = dict(harnesses=[H('fixed', 'coll.cpp', defs=['MANAGED=0'], quick=dict(time=60), reach=['done', 'no_space']), H('growing', 'coll.cpp', defs=['MANAGED=1'], quick=dict(time=60), reach=['done'])])
PROPS['P16']['harnesses'] += [H('far', 'coll_far.cpp', quick=dict(time=60, steps=20000000), max_wit=40, reach=['erased', 'all', 'written']), H('far_growing', 'coll_far.cpp', defs=['TUPLE=tuple_rw_managed'], quick=dict(time=60, steps=20000000), max_wit=40, reach=['erased', 'all', 'written'])]
PROPS['P17'] = dict(harnesses=[H('space', 'space.cpp', quick=dict(time=100), reach=['done'])])
PROPS['P17']['harnesses'] += [H('scales', 'scale.cpp', quick=dict(time=60), reach=['done']), H('growing_scales', 'scale.cpp', defs=['TUPLE=tuple_rw_managed'], quick=dict(time=60), reach=['done'])]
PROPS['P18'] = dict(harnesses=[H(n, 'legacy_rw.cpp', defs=['PART=%d' % i], quick=dict(time=100, wit=16), max_wit=40, reach=[n]) for i, n in enumerate(('step', 'types', 'buffers', 'view', 'limits'))])
PROPS['P19'] = dict(harnesses=[H('search', 'legacy_ro.cpp', defs=['PART=0'], quick=dict(time=100), reach=['search', 'filters']), H('values', 'legacy_ro.cpp', defs=['PART=1'], max_wit=60, quick=dict(time=100), reach=['value', 'values', 'compare', 'filters', 'tags'])])
PROPS['P20'] = dict(harnesses=[H('handles', 'own.cpp', quick=dict(time=100), reach=['done', 'hollow', 'nested', 'misfit'])])
PROPS['P21'] = dict(harnesses=[H('starved', 'oom.cpp', quick=dict(time=100), reach=['done', 'starved', 'no_tuple']), H('many', 'oom_many.cpp', max_wit=40, quick=dict(time=100, wit=16, steps=30000000), reach=['done', 'starved']), H('many_growing', 'oom_many.cpp', defs=['TUPLE=tuple_rw_managed'], max_wit=40, quick=dict(time=100, wit=16, steps=30000000), reach=['done', 'starved'])])
PROPS['P22'] = dict(harnesses=[H('times', 'times.cpp', quick=dict(time=100), reach=['done', 'units'])])
PROPS['P23'] = dict(harnesses=[H('fixed', 'static.cpp', defs=['TUPLE=tuple_rw_fixed'], max_wit=80, quick=dict(time=100, wit=16), reach=['done']), H('growing', 'static.cpp', defs=['TUPLE=tuple_rw_managed'], max_wit=80, quick=dict(time=100, wit=16), reach=['done'])])
PROPS['P24'] = dict(harnesses=[H('%s_%s' % (('large', 'many')[i], n), 'big.cpp', defs=['PART=%d' % i, 'TUPLE=' + t], max_wit=40, quick=dict(time=150, wit=16, steps=60000000), reach=['done', 'stored', 'refused']) for i in range(2) for n, t in (('fixed', 'tuple_rw_fixed'), ('growing', 'tuple_rw_managed'))])
