"""Which proof units decide which property. own: (unit, mode); deps: lower layers whose contracts own units assume."""
_TABLE = [('table', 'C05'), ('from', 'C04'), ('follow', 'C04'), ('first', 'C03'), ('grammar', 'C01')]
PROPS = {
    'C01': dict(own=[('grammar', 'C01')], deps=[]),
    'C02': dict(own=[('grammar', 'C02')], deps=[]),
    'C03': dict(own=[('first', 'C03'), ('from', 'C03')], deps=[('grammar', 'C01')]),
    'C04': dict(own=[('follow', 'C04'), ('from', 'C04')], deps=[('first', 'C03'), ('grammar', 'C01')]),
    'C05': dict(own=[('table', 'C05')], deps=[('from', 'C04'), ('follow', 'C04'), ('first', 'C03'), ('grammar', 'C01')]),
    'C06': dict(own=[('parse', 'C06'), ('cell', 'C06')], deps=[('ctor', 'C11')] + _TABLE),
    'C07': dict(own=[('choice', 'C07'), ('cell', 'C07')], deps=[('ctor', 'C11')] + _TABLE, kinds=('functional', 'safety')),
    'C08': dict(own=[('parse', 'C08'), ('cell', 'C08')], deps=[('ctor', 'C11')] + _TABLE),
    'C09': dict(own=[('parse', 'C09'), ('cell', 'C09')], deps=[('ctor', 'C11')] + _TABLE, kinds=('safety',)),
    'C10': dict(own=[('choice', 'C10'), ('cell', 'C10')], deps=[('ctor', 'C11')] + _TABLE),
    'C11': dict(own=[('first', 'C11'), ('follow', 'C11'), ('from', 'C11'), ('table', 'C11'), ('ctor', 'C11')], deps=[('grammar', 'C01')], kinds=('safety',)),
    'C12': dict(own=[('choice', 'C12'), ('cell', 'C12')], deps=[('ctor', 'C11')] + _TABLE),
}

_A = ('All obligations of the listed functions are discharged by Verus on the current source, for all inputs; trusted: the contracts vstd gives the std containers (and one of ours, HashMap::get_mut), '
      'the extractor, lawful symbol types. A short bounded run of the real code accompanies it and stands alone (labelled bounded) when the source no longer fits the contracts.')
NOTES = {k: _A for k in PROPS}
NA = {}
