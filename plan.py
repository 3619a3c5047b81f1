"""What decides each property: specification modules (deductive) and exerciser runs (bounded, concrete)."""
MIX = 'aaaafrrVnc'
HC = [  # configurations of the concrete histories
    {}, {'DUMA_PROTECT_BELOW': '1'}, {'DUMA_PROTECT_FREE': '0'}, {'DUMA_PROTECT_FREE': '200', 'DUMA_ALIGNMENT': '16'},
    {'DUMA_FILL': '-1', 'DUMA_SLACKFILL': '17', 'DUMA_MALLOC_0_STRATEGY': '2'},
    {'DUMA_MALLOC_0_STRATEGY': '1', 'DUMA_NEW_0_STRATEGY': '2', 'DUMA_FREE_ACCESS': '1'},
    {'DUMA_PROTECT_FREE': '40', 'DUMA_PROTECT_BELOW': '1', 'DUMA_CHECK_FREQ': '7', 'DUMA_FILL': '0'},
    {'DUMA_MAX_ALLOC': '3000', 'DUMA_PROTECT_FREE': '1500', 'DUMA_ALIGNMENT': '64', 'DUMA_PROTECT_BELOW': '1'},
    {'DUMA_ALIGNMENT': '8192', 'DUMA_PROTECT_FREE': '0', 'DUMA_FILL': '300', 'DUMA_SLACKFILL': '256'},
]
IC = [{}, {'DUMA_PROTECT_FREE': '100', 'DUMA_REPORT_ALL_LEAKS': '1'}, {'DUMA_PROTECT_BELOW': '1'}, {'DUMA_PROTECT_FREE': '0', 'DUMA_ALIGNMENT': '32'}]
FX0 = {'DUMA_MALLOC_FAILEXIT': '0'}


def hist(n, mix=MIX, confs=HC):
    return [(dict(c), 'hist', n, mix) for c in confs]


def runs(prop, tier, deep):
    """list of (env, mode, args...); seeds are added by the driver"""
    big = deep or tier == 'thorough'
    n = 4000 if big else 1200
    zero = [({'DUMA_MALLOC_0_STRATEGY': str(s), 'DUMA_NEW_0_STRATEGY': str(max(2, s))}, 'zero') for s in range(4)]
    sizes = [({}, 'sizes'), (FX0, 'sizes'), (dict(FX0, DUMA_PROTECT_FREE='0'), 'sizes'), ({'DUMA_PROTECT_BELOW': '1', 'DUMA_MALLOC_FAILEXIT': '0'}, 'sizes')]
    cf = [({'DUMA_CHECK_FREQ': str(k)}, 'checkfreq') for k in (1, 2, 3, 8)]
    budget = [(dict(FX0, DUMA_PROTECT_FREE=str(b)), 'budget', 4000 if big else 2500) for b in (4, 20, 100, 300, 2000, 0, -1)]
    budget.append((dict(FX0, DUMA_PROTECT_FREE='400', DUMA_MAX_ALLOC='3000'), 'budget', 2500))
    oom = [(dict(FX0, DUMA_PROTECT_FREE=str(b)), 'oom', 800) for b in (-1, 0, 100)]
    H = hist(n)
    I = [(dict(c), 'hist', 900 if big else 350, 'aafimvd') for c in IC]
    R = {
        'C01': H, 'C02': H, 'C03': H + [({}, 'aligns'), ({'DUMA_PROTECT_BELOW': '1'}, 'aligns')] + sizes[1:2], 'C04': H + [({}, 'init')] + sizes[1:2],
        'C05': H, 'C06': [(e, m, k, 'aaffrii') for e, m, k, x in I] * (3 if big else 2),
        'C07': H + [(e, m, k, 'aafrvnc') for e, m, k, x in I] + budget[:3] + [({}, 'locks')],
        'C08': H + [(e, m, k, 'aafrddc') for e, m, k, x in I] + cf, 'C09': H + [({'DUMA_FILL': '0'}, 'hist', n, 'aaaf'), ({'DUMA_FILL': '77'}, 'hist', n, 'aaaf')],
        'C10': H + sizes[:3], 'C11': H + zero + [({}, 'init')], 'C12': H + sizes + oom, 'C13': H + sizes[1:3] + [({}, 'init'), ({}, 'locks')],
        'C14': H + [({}, 'entries'), ({'DUMA_PROTECT_FREE': '0', 'DUMA_SHOW_ALLOC': '0'}, 'entries'), ({}, 'locks')] + sizes[1:2],
        'C15': [({}, 'locks', 6 if big else 3)], 'C16': budget, 'C17': [(dict(e, DUMA_REPORT_ALL_LEAKS=str(a)), m, k, 'aaafrR') for e, m, k, x in I for a in (0, 1)],
        'C18': [({}, 'families')] + [(e, m, k, 'aafmmv') for e, m, k, x in I] * 2, 'C19': [({}, 'strings', 3000 if big else 800), ({'DUMA_MEMCPY_OVERLAP': '1'}, 'strings', 500)],
        'C20': [({}, 'strings', 3000 if big else 800), ({'DUMA_MEMCPY_OVERLAP': '1'}, 'strings', 800)], 'C21': [({}, 'new'), ({'DUMA_PROTECT_FREE': '0'}, 'new'), ({'DUMA_MALLOC_FAILEXIT': '0'}, 'new')],
        'C22': [('ENVIRON',)], 'C23': [({}, 'print', 3000 if big else 600)], 'C24': H + zero[2:3], 'C25': [({}, 'init'), ({'DUMA_PROTECT_FREE': '0'}, 'init'), ({'DUMA_OUTPUT_FILE': '/dev/null'}, 'init')],
    }
    return R.get(prop, []) * (1 if prop in ('C15', 'C22') or deep else 3)


# functions a property depends on that are not under contract: for them the exerciser (bounded) stands in
_ALLOC = ['_duma_allocate', 'allocateMoreSlots']
_RE = ['_duma_realloc']
BOUNDED = {
    'C01': _ALLOC, 'C02': _ALLOC, 'C03': _ALLOC, 'C04': _ALLOC + _RE, 'C05': _ALLOC + _RE, 'C06': _ALLOC + _RE, 'C07': _ALLOC + _RE, 'C08': _ALLOC + _RE, 'C09': _ALLOC + _RE,
    'C10': _ALLOC + _RE, 'C11': _ALLOC, 'C12': _ALLOC + _RE, 'C13': _ALLOC + _RE, 'C14': _ALLOC + _RE, 'C16': _ALLOC + _RE, 'C17': _ALLOC, 'C18': _ALLOC + _RE,
    'C24': _ALLOC + _RE,
}
