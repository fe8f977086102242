"""Which machines, with which constants, decide which property."""
ALL = '{3,4,5,6,7,8,9,10,11,12,13,14}'
SOME = '{3,4,5,10,14}'

ASSUMPTIONS = [
    'decimals have at most 28 significant digits after an offset was added',
    'the harness observes values through the public fields and getters of the crate only',
]
def known_findings():
    """the open entries of known-findings.txt"""
    import os, re
    out = []
    for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt'), encoding='utf-8'):
        m = re.match(r'open: property=(\S+) kind=(\S+) id=(\S+) (.*)', l)
        if m:
            out.append(dict(zip(('property', 'kind', 'id', 'what'), m.groups())))
    return out


KNOWN = known_findings()


def dev(pool, k=1, judge=1, vs=ALL, **kw):
    return dict(name='%s-k%d' % (pool, k), module='Deviate', consts=dict(Templates=pool + 'Templates', K=k, Judge=judge, Vs=vs, Good='FALSE'),
                subst=dict(Templates=True), **kw)


def good(pool, k=2, judge=1, vs='{14}', **kw):
    """k deviations that are valid on their own"""
    x = dev(pool, k, judge, vs, **kw)
    x['name'] = '%s-valid%d' % (pool, k)
    x['consts']['Good'] = 'TRUE'
    return x


def cmp(tasks, less=1, judge=1, **kw):
    return dict(name='%s-l%d' % (tasks, less), module='Alphabets', consts=dict(Tasks=tasks + 'Tasks', Less=less, Judge=judge),
                subst=dict(Tasks=True), **kw)


def api(types, depth, **kw):
    """values of these types under every history of `depth` edits"""
    tys = '<<%s>>' % ', '.join('"%s"' % t for t in types.split())
    return dict(name='api-%s-d%d' % (types.replace(' ', '-')[:40], depth), module='Api', defs='TheTypes == ' + tys,
                consts=dict(Types='TheTypes', Depth=depth), subst=dict(Types=True), **kw)


def codes(vs=ALL, **kw):
    """every code of every enumerated type"""
    return dict(name='codes', module='Codes', consts=dict(CodeVs=vs), **kw)


def parts(groups, vs=SOME, **kw):
    """values below the level of a line"""
    return dict(name='parts-' + groups.replace(' ', '-')[:30], module='Parts', consts=dict(PartVs=vs, PartGroups='{%s}' % ','.join('"%s"' % g for g in groups.split())), **kw)


def same(pairlen, depth, shape, **kw):
    """pairs of texts, and texts under edits"""
    return dict(name='texts-%d-%d-%d' % (pairlen, depth, shape), module='TextEq', consts=dict(PairLen=pairlen, EditDepth=depth, ShapeLen=shape), **kw)


def long(groups, judge=1, counts='{3,9,10,17,33,100,257}', **kw):
    """units that stand many times in a row"""
    return dict(name='long-' + groups.replace(' ', '-'), module='Long', subst=dict(LongTasks=True),
                consts=dict(LongTasks='AllTasks', Counts=counts, Judge=judge, Wanted='{%s}' % ','.join('"%s"' % g for g in groups.split())), **kw)


def grow(groups, sizes='{66001}', units=5, judge=1, **kw):
    """units that stand tens of thousands of times in a row"""
    return dict(name='grow-' + groups.replace(' ', '-'), module='Grow', subst=dict(GrowTasks=True),
                consts=dict(GrowTasks='AllTasks', Sizes=sizes, MaxUnits=units, Judge=judge, Wanted='{%s}' % ','.join('"%s"' % g for g in groups.split())), **kw)


def edits(groups, chars='SomeChars', k=1, judge=1, **kw):
    """texts under edits of one character"""
    return dict(name='edits-' + groups.replace(' ', '-'), module='Edits', subst=dict(EditTasks=True, Chars=True),
                consts=dict(EditTasks='AllTasks', Chars=chars, K=k, Judge=judge, Wanted='{%s}' % ','.join('"%s"' % g for g in groups.split())), **kw)


def mix(pool, n=3000, vs='{14}', judge=1, lines=4, **kw):
    """samples in which many fields deviate at once"""
    return dict(name='mix-' + pool, module='Mix', subst=dict(Templates=True), seeded='Seed',
                consts=dict(Templates=pool + 'Templates', Samples=n, MaxLines=lines, Judge=judge, Vs=vs, Good='TRUE', Seed=1), **kw)


def rnd(n, kinds, **kw):
    """n random texts of these kinds, recorded from the code and judged by the specification"""
    return dict(name='random-%s' % (kinds[0] if len(kinds) == 1 else 'mixed'), module='Judge', consts={}, n=n, kinds=kinds, **kw)


KV = ['General', 'Editor', 'Metadata', 'Difficulty']
LISTVALUES = 'TimingPoints HitObjects Colours Events'
LISTS = ['Colour', 'TimingPoint', 'HitObject', 'Event', 'Command']
STATE = ['panic', 'api', 'st', 'msg', 'obs', 'pr', 'hist', 'item']
SMALL = 'hitvolume audiovolume timingvolume comboskip hitsound effects decimal error path sprite frames tempo'

PARTS = 'rgb edgeset point sample trigger variable fields defaults'
SECS = KV + ['Events', 'TimingPoints', 'Colours', 'HitObjects']
EVERY = SECS + ['osb', 'doc', 'doc', 'Events']
LISTSECS = ['Events', 'TimingPoints', 'Colours', 'HitObjects']
LONGS = 'tp ho col kv ev cmd osb doc'
MANY = '{2,4,5,7,8,11,12,16,31,32,34,63,64,65,99,101,127,128,129,255,256,258,300}'
FAR = '{20000,33000,66001,140000}'
NOTES = {}
PROPS = {
    'C01': dict(aspects=['panic'],
                quick=[edits(LONGS, 'SomeChars', 1, 0)] + [dev(x, 1, 0, '{3,14}') for x in KV] + [dev(x, 1, 0, SOME) for x in LISTS] + [cmp('Doc'), cmp('Location'), cmp('List'), cmp('Tree'), cmp('Osb'), cmp('Char', 1, 0), api(SMALL, 1), api('pairs colours timingpoint hitobject event', 1), parts(PARTS, '{3,14}')] + [api('file', 1)] + [rnd(2500, EVERY)] + [long(LONGS, 0), grow(LONGS)],
                thorough=[edits(LONGS, 'ManyChars')] + [dev(x, 1, 1) for x in KV] + [dev(x, 2, 1, SOME) for x in LISTS] + [cmp(x, 0) for x in ('Doc', 'Location', 'List', 'Tree', 'Osb')] + [cmp('Char', 0, 0), parts(PARTS, ALL)] + [api('file', 2)] + [rnd(60000, EVERY)] + [long(LONGS, 1, MANY), grow(LONGS, FAR)]),
    'C02': dict(aspects=['panic', 'rt', 'pr', 'hist'],
                quick=[mix(x, 1500, SOME) for x in LISTS] + [edits(LONGS, 'FewChars')] + [dev(x, 1, 2, '{4,14}') for x in KV] + [dev(x, 1, 2, SOME) for x in LISTS] + [cmp(x, 1, 2) for x in ('Doc', 'List', 'Tree', 'Osb')] + [api('file', 2), api(LISTVALUES, 2), api('made', 1)] + [good(x) for x in LISTS] + [rnd(2500, EVERY)] + [long(LONGS, 1), grow(LONGS)] + [cmp('Full', 0), cmp('RunHo', 2), cmp('RunEv', 2)],
                thorough=[cmp('Full', 0), cmp('RunTp', 0), cmp('RunHo', 0), cmp('RunEv', 0), cmp('RunCol', 0), cmp('RunCmd', 0)] + [mix(x, 100000, ALL, 1, 5) for x in LISTS] + [edits(LONGS, 'ManyChars')] + [dev(x, 1, 2) for x in KV] + [dev(x, 2, 2) for x in LISTS] + [cmp(x, 0, 2) for x in ('Doc', 'List', 'Tree', 'Osb')] + [api('file', 3), api(LISTVALUES, 4), api('made', 2)] + [good(x, 2, 1, ALL) for x in LISTS] + [rnd(60000, EVERY)] + [long(LONGS, 1, MANY), grow(LONGS, FAR)]),
    'C03': dict(aspects=['panic', 'line'],
                quick=[edits('doc osb')] + [cmp('Doc'), cmp('Location', 0), cmp('List'), cmp('Tree'), cmp('Osb')] + [rnd(2500, ["doc", "osb"] + LISTSECS)] + [long(LONGS, 0), grow(LONGS)] + [cmp('Full', 0)],
                thorough=[cmp('Full', 0)] + [edits(LONGS, 'ManyChars')] + [cmp(x, 0) for x in ('Doc', 'Location', 'List', 'Tree', 'Osb')] + [dev(x, 1) for x in KV] + [rnd(60000, ["doc", "osb"] + LISTSECS)] + [long(LONGS, 1, MANY), grow(LONGS, FAR)]),
    'C04': dict(aspects=STATE, quick=[edits('doc')] + [cmp('Doc'), cmp('Location')] + [api('file', 2)] + [rnd(2500, ["doc"])] + [long('doc', 0), grow('doc')] + [cmp('Full', 0)], thorough=[cmp('Full', 0)] + [edits('doc', 'FewChars', 2)] + [cmp('Doc', 0), cmp('Location', 0)] + [api('file', 3)] + [rnd(60000, ["doc"])] + [long('doc', 1, MANY), grow('doc', FAR)]),
    'C05': dict(aspects=STATE + ['rt'], quick=[mix(x, 1500, '{14}', 1, 1) for x in ('Editor', 'Metadata', 'Difficulty', 'General')] + [edits('kv')] + [dev(x, 1, 1, '{3,5,14}') for x in KV] + [cmp('Key'), parts('fields')] + [api('General Editor Metadata Difficulty', 2)] + [rnd(2500, KV)] + [long('kv', 1), grow('kv')],
                thorough=[mix(x, 60000, SOME, 1, 1) for x in KV] + [edits('kv', 'ManyChars')] + [dev(x, 1, 2) for x in KV] + [cmp('Key', 0), parts('fields', ALL)] + [api('Editor Metadata Difficulty', 3)] + [rnd(60000, KV)] + [long('kv', 1, MANY), grow('kv', FAR)]),
    'C06': dict(aspects=STATE, quick=[mix(x, 2000, '{3,4,5,9,10,11,12,14}') for x in ('HitObject', 'TimingPoint')] + [dev(x, 0, 1) for x in LISTS] + [cmp('Key'), cmp('Doc'), cmp('Osb')] + [dev(x, 1, 0, ALL) for x in KV + ['TimingPoint', 'HitObject', 'Event', 'Colour']] + [dev('Command', 1, 0)] + [parts('fields defaults', ALL)] + [api('General Editor Metadata Difficulty', 2)] + [rnd(2500, SECS)],
                thorough=[mix(x, 100000, ALL, 1, 5) for x in LISTS] + [dev(x, 1, 1) for x in KV + LISTS] + [cmp(x, 0) for x in ('Key', 'Doc', 'Osb')] + [parts('fields defaults', ALL)] + [api('Editor Metadata Difficulty', 3)] + [rnd(60000, SECS)]),
    'C07': dict(aspects=['panic', 'hist', 'st', 'obs', 'pr', 'item'], quick=[mix(x, 3000, '{3,4,5}', 0, 2) for x in ('HitObject', 'TimingPoint', 'Event')] + [api('made', 1), good('HitObject', 2, 0, '{4}')] + [good(x, 2, 0, '{3,4}') for x in ('TimingPoint', 'Event')] + [dev(x, 1, 0) for x in ('TimingPoint', 'HitObject', 'Event')] + [rnd(2500, ["TimingPoints", "HitObjects", "Events"])],
                thorough=[mix(x, 100000, ALL, 1, 5) for x in ('HitObject', 'TimingPoint', 'Event')] + [api('made', 2), api('timingpoint', 3)] + [dev(x, 2, 0) for x in ('TimingPoint', 'HitObject', 'Event')] + [rnd(60000, ["TimingPoints", "HitObjects", "Events"])]),
    'C08': dict(aspects=STATE, quick=[mix('TimingPoint', 6000, SOME)] + [edits('tp')] + [dev('TimingPoint', 1, 1), good('TimingPoint'), api('TimingPoints', 3), cmp('List'), api('effects timingvolume tempo timingpoint', 2)] + [rnd(2500, ["TimingPoints"])] + [long('tp', 1), grow('tp')] + [cmp('RunTp', 2)],
                thorough=[cmp('RunTp', 0)] + [mix('TimingPoint', 200000, ALL, 1, 5)] + [edits('tp', 'FewChars', 2)] + [dev('TimingPoint', 2, 1), good('TimingPoint', 3), api('TimingPoints', 5), cmp('List', 0), api('effects timingvolume tempo timingpoint', 3)] + [rnd(60000, ["TimingPoints"])] + [long('tp', 1, MANY), grow('tp', FAR)]),
    'C09': dict(aspects=STATE, quick=[mix('HitObject', 6000, '{3,4,9,14}')] + [edits('ho')] + [dev('HitObject', 1, 1), good('HitObject'), api('HitObjects', 3), api('hitobject hitsound hitvolume comboskip', 2), parts('edgeset point sample')] + [rnd(2500, ["HitObjects"])] + [long('ho', 1), grow('ho')] + [cmp('RunHo', 2)],
                thorough=[cmp('RunHo', 0)] + [mix('HitObject', 200000, ALL, 1, 5)] + [edits('ho', 'ManyChars')] + [dev('HitObject', 2, 1), good('HitObject', 2, 1, ALL), api('HitObjects', 5), api('hitobject hitsound hitvolume comboskip', 3), parts('edgeset point sample', ALL)] + [rnd(60000, ["HitObjects"])] + [long('ho', 1, MANY), grow('ho', FAR)]),
    'C10': dict(aspects=STATE + ['rt'], quick=[edits('cmd', 'FewChars')] + [cmp('Tree'), api('event', 3), api('command', 1)] + [rnd(2500, ["Events"])] + [long('ev', 1), grow('ev')] + [cmp('RunCmd', 2)], thorough=[cmp('RunCmd', 0)] + [edits('cmd', 'ManyChars')] + [cmp('Tree', 0), api('event', 4), api('command', 2)] + [rnd(60000, ["Events"])] + [long('ev', 1, MANY), grow('ev', FAR)]),
    'C11': dict(aspects=STATE + ['rt'], quick=[mix('Command', 6000)] + [edits('cmd')] + [dev('Command', 2, 1), parts('trigger'), cmp('Trigger'), api('command', 2)] + [rnd(2500, ["Events"])] + [long('cmd', 1), grow('cmd')], thorough=[mix('Command', 200000, ALL, 1, 5)] + [edits('cmd', 'ManyChars')] + [dev('Command', 3, 1), parts('trigger', ALL), cmp('Trigger', 0), api('command', 3)] + [rnd(60000, ["Events"])] + [long('cmd', 1, MANY), grow('cmd', FAR)]),
    'C12': dict(aspects=STATE + ['rt'], quick=[edits('osb')] + [cmp('Osb'), parts('variable')] + [api('file', 2), api('command', 1)] + [rnd(2500, ["osb"])] + [long('osb', 1), grow('osb')], thorough=[edits('osb', 'ManyChars')] + [cmp('Osb', 0), parts('variable', ALL)] + [api('file', 3), api('command', 2)] + [rnd(60000, ["osb"])] + [long('osb', 1, MANY), grow('osb', FAR)]),
    'C13': dict(aspects=['panic', 'hist'], quick=[api('pairs', 3), api('colours', 3), api(SMALL, 2), api('timingpoint', 2), api('hitobject', 2), api('event', 3), api('made', 2), api('command', 1), api(LISTVALUES, 3)] + [api('General Editor Metadata Difficulty', 1), api('file', 2)],
                thorough=[api('pairs', 4), api('colours', 4), api(SMALL, 3), api('timingpoint', 3), api('hitobject', 3), api('event', 4), api('made', 3), api('command', 2), api(LISTVALUES, 5)] + [api('General Editor Metadata Difficulty', 2), api('file', 3)]),
    'C14': dict(aspects=['panic', 'st', 'msg', 'obs', 'pr', 'num'], quick=[codes(), cmp('Trigger', 2)], thorough=[codes(), cmp('Trigger', 0), dev('Event', 1, 1), dev('TimingPoint', 1, 1)]),
    'C15': dict(aspects=STATE + ['rt'], quick=[mix('Event', 6000, '{3,4,14}')] + [edits('ev')] + [dev('Event', 1, 1), good('Event'), api('made', 2), api('Events', 3), cmp('Tree')] + [rnd(2500, ["Events"])] + [long('ev', 1), grow('ev')] + [cmp('RunEv', 2)], thorough=[cmp('RunEv', 0)] + [mix('Event', 200000, ALL, 1, 5)] + [edits('ev', 'ManyChars')] + [dev('Event', 2, 1), good('Event', 3), api('made', 3), api('Events', 5), cmp('Tree', 0)] + [rnd(60000, ["Events"])] + [long('ev', 1, MANY), grow('ev', FAR)]),
    'C16': dict(aspects=['panic', 'same'], quick=[same(2, 1, 5)], thorough=[same(2, 2, 6)]),
    'C19': dict(aspects=['panic', 'hist', 'st', 'obs', 'pr'], quick=[edits('ev', 'SomeChars', 1, 0)] + [api('path sprite frames', 2), dev('Event', 1, 1, SOME), dev('HitObject', 1, 1, '{14}')],
                thorough=[edits('ev', 'ManyChars')] + [api('path sprite frames', 3), dev('Event', 2, 1, SOME), dev('HitObject', 2, 1, '{14}')]),
    'C17': dict(aspects=STATE, quick=[edits(LONGS, 'FewChars', 1, 0)] + [parts(PARTS), codes(SOME), api('error', 3)] + [dev(x, 1, 0, '{3,14}') for x in LISTS + KV] + [rnd(2500, EVERY)] + [long('doc tp', 0), grow('doc tp')], thorough=[edits(LONGS, 'ManyChars', 1, 0)] + [parts(PARTS, ALL), codes(), api('error', 4)] + [dev(x, 1, 0) for x in LISTS + KV] + [rnd(60000, EVERY)] + [long('doc tp', 1, MANY), grow('doc tp', FAR)]),
    'C18': dict(aspects=STATE + ['rt'], quick=[mix('Colour', 6000, '{3,5,14}')] + [edits('col')] + [dev('Colour', 1, 1, '{3,4,5,14}'), good('Colour', 2, 1, '{5,14}'), api('Colours', 3), cmp('List'), parts('rgb', '{3,4,5,14}')] + [rnd(2500, ["Colours"])] + [long('col', 1), grow('col')] + [cmp('RunCol', 2)], thorough=[cmp('RunCol', 0)] + [mix('Colour', 100000, ALL, 1, 6)] + [edits('col', 'SomeChars', 2)] + [dev('Colour', 2, 1), good('Colour', 3), api('Colours', 5), cmp('List', 0), parts('rgb', ALL)] + [rnd(60000, ["Colours"])] + [long('col', 1, MANY), grow('col', FAR)]),
}


def expand(prop, tier, seed):
    if prop == 'X':
        PROPS['X'] = dict(aspects=[], quick=[rnd(40000, EVERY)])
    import gen
    todo = []
    for i, x in enumerate(PROPS[prop][tier]):
        x = dict(x)
        if 'kinds' in x:
            x['trace'] = lambda path, here, x=x, i=i: gen.write(path, seed * 1000003 + i, x['n'], x['kinds'])
        if 'seeded' in x:
            x['consts'] = dict(x['consts'], **{x['seeded']: (seed * 31 + i) % 9973})
        todo.append(x)
    return todo
