"""The bounded models of each property: menu, bounds, invariants, and how a behaviour of the model becomes a history
that is replayed in the library."""

PATH = 'w/main.csv'


def load_rows(rows, d=1, more=False):
    return dict(op='load', d=d, src='rows', rows=rows, more=more)


def load_file(d=1):
    return dict(op='load', d=d, src='file', path=PATH, more=False)


# ---- menus of rows --------------------------------------------------------------------------------------------------

ROWS = dict(
    rows=[['SA', 'Sx'], ['SB', 'Sy', 'Sp'], ['SA.C', 'Sz'], ['S.D', 'Sw', 'S', 'Sq'], ['SSection', 'SOne', 'Sc1', 'Sc2'], ['SSection', 'Sone'],
          ['SSection', 'STwo'], ['SHeader', 'S', 'Sh1'], ['S', 'Sz'], ['SB.A', 'Su'], ['SSection', 'SRoot']],
    names=[['SA', 'Sx'], ['S root.B ', 'S y '], ['S# A', 'Sn'], ['S', 'Sv'], ['Sa.b', 'S'], ['S.c', 'I7'], ['SRoot.A'], ['S  #', 'Sx'], ['SB.B', 'SN']],
    parents=[['SA', 'Sx'], ['SA.B', 'Sy'], ['SB.C', 'Sz'], ['S.B', 'Su'], ['S.A', 'Sv'], ['SSection', 'SOne'], ['SC.A', 'Sw']],
    cells=[['SA', 'Sx', 'Sp', 'Sq'], ['S.B', 'S', 'S', 'Sr', 'Ss'], ['SSection', 'SOne', 'SAlt', 'S', 'SNote'], ['SSection', 'STwo'],
           ['SHeader', 'SName', 'Sh1', 'S', 'SH3'], ['SSection', 'SRoot'], ['SSection', 'SONE', 'Sother'], ['SA.C', 'Sy', 'I0', 'S5']],
    columns=[['SA', 'Sx', 'Sp', 'Sq'], ['S.B', 'S', 'S', 'Sr', 'Ss'], ['SSection', 'SOne', 'SAlt', 'S', 'SNote'], ['SSection', 'STwo'],
             ['SHeader', 'S', 'Sh1', 'S', 'SH3'], ['SSection', 'SRoot'], ['SSection', 'SONE', 'Sother'], ['SA.C', 'Sy', 'I5', 'S5']],
    sections=[['SA', 'Sx'], ['S.B', 'Sy'], ['SSection', 'SOne', 'Sa'], ['SSection', 'SONE', 'Sb', 'Sc'], ['SSection', 'STwo'], ['SSection', 'Sroot', 'Sz'],
              ['SSection', 'S two ']],
    dicts=[['SA', 'Sx'], ['SA', 'Sy', 'Sp'], ['SA.C', 'Sz'], ['S.C', 'S'], ['SB', 'S'], ['SSection', 'SOne', 'SC'], ['SC.C', 'I3'], ['SSection', 'STwo']],
    shapes=[['SA', 'Sy'], ['S.Sc', 'S1'], ['S.Sq', 'S2'], ['S.Sj', 'S3'], ['S.Bj', 'I4'], ['S.Pl', 'S5'], ['SSc.Pl', 'S6'], ['S.Sj', 'S'], ['S.AName', 'S8']],
    text=[['SA', 'Sa|b'], ['S.B', 'S#c', 'Sd:e'], ['SSection', 'SOne', 'SAlt'], ['SA', 'I5', 'Sx\\'], ['SA.C', 'Sa"b, c'], ['SHeader', 'S', 'SAlt', 'SNote'], ['SB', 'S']],
    pack=[['STable', 'St1'], ['STable.Column', 'Sc1', 'Sint'], ['STable.Column', 'Sc2', 'S', 'Sd'], ['SSection', 'SSchema', 'SDataType', 'SDescription'],
          ['SSection', 'SResources', 'SName', 'STable'], ['SDatafile', 'Su1', 'St1'], ['SDatafile', 'Su2', 'Sf', 'St1'], ['SName', 'Snm']],
    files=[['STable', 'St2'], ['STable.Column', 'Sc2', 'Sstr'], ['SSection', 'SResources', 'SName', 'STable'], ['SSection', 'SSchema', 'SDataType'], ['SDatafile', 'Su1', 'St1', 'St2'],
           ['SDatafile', 'Su2', 'St2', 'St1'], ['SDatafile', 'Su3', 'Sf', 'St2'], ['SOther', 'Su4', 'St1'], ['SDatafile', 'Su5', 'Sg', 'Sh']],
    schema=[['STable', 'St1'], ['STable.Column', 'Sc1', 'Sint'], ['STable.Column', 'Sc2', 'S', 'Sd'], ['SColumn.Note', 'S'], ['SColumn.Extra', 'Se'], ['SSection', 'STwo'],
            ['STable', 'St2', 'Sx']],
)
SHAPES = [['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType'], ['SDeclareTerm', 'SRoot.A', 'SAname', 'S'], ['SDeclareTerm', 'SA.Sc', 'S', 'Sscalar'],
          ['SDeclareTerm', 'SA.Sq', 'S', 'Ssequence'], ['SDeclareTerm', 'SA.Sj', 'S', 'Ssconcat'], ['SDeclareTerm', 'SA.Bj', 'S', 'Sbconcat']]
PACK_DECL = [['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType'], ['SDeclareTerm', 'STable.Column', 'SName', 'Ssequence'],
             ['SDeclareTerm', 'SRoot.Datafile', 'SUrl', 'Ssequence'], ['SDeclareTerm', 'SRoot.Table', 'SName', 'Ssequence']]


def rows_job(menu, n, invs, ops, files=None, pre=(), **kw):
    """Every list of n rows from a menu; ops(rows) gives the operations of the history"""

    def wrap(hs):
        return [dict(files=dict(files, **{PATH: h}) if files else {}, ops=ops(h), **kw) for h in hs]

    return dict(name='rows-' + menu, module='MCRows', menu=dict(files=dict(files or {}, **{PATH: []}), pre=list(pre), rows=ROWS[menu]), len=n, invariants=list(invs), wrap=wrap,
                bounds='every list of up to %d rows out of %d' % (n, len(ROWS[menu])))


def as_load(rows):
    return [load_rows(rows)]


# ---- menus of operations --------------------------------------------------------------------------------------------

START = [['SA', 'Sx'], ['SA.C', 'Sz'], ['SB', 'Sy'], ['SSection', 'SOne', 'SAlt'], ['SA', 'Sq', 'Sr']]
DSTART = [['SDeclare', 'Sd'], ['SA', 'Sx'], ['SA.C', 'Sz'], ['SSection', 'SOne'], ['SB', 'Sq', 'Sr']]
DFILE = [['SSection', 'SDeclaredSections'], ['SDeclareSection', 'SOne', 'SAlt', 'SNote'], ['SDeclareSection', 'STwo', 'SX'],
         ['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType', 'SSection', 'SSynonym', 'SInheritsFrom'],
         ['SDeclareTerm', 'SRoot.A', 'SAname', 'S', 'SOne'], ['SDeclareTerm', 'SA.C', 'SCname', 'Ssequence', 'SOne'],
         ['SDeclareTerm', 'SRoot.Z', 'SZname', 'S', 'SOne']]

E_TERMS = [dict(op='newterm', s=1, name='A', v='Sv', props=[['p', 'S1']]), dict(op='newterm', s=2, name='Root.B', v='N', props=[]),
           dict(op='gonterm', s=1, name='a', v='-', props=[['c', 'S2']]), dict(op='gonterm', s=2, name='Z', v='Sn', props=[]),
           dict(op='rmterm', pth=[1, 1], via='sec'), dict(op='rmterm', pth=[1, 2], via='doc'), dict(op='moveterm', pth=[1, 1], s=2, via='add'),
           dict(op='moveterm', pth=[2, 1], s=1, via='move'), dict(op='delterms', s=1, name='A'), dict(op='cleansec', s=2),
           dict(op='sortterms', s=1, given=True, order=['b']), dict(op='setterms', s=1, items=[['B', 'Sk', []], ['A', 'N', [['c', 'S9']]]]),
           dict(op='gonsec', name='ONE', cols=['y']), dict(op='delsec', name='one')]
E_MORE = [dict(op='setitem', s=1, name='a', v='Sx'), dict(op='setitem', s=2, name='Q', v='Sn'), dict(op='addnew', s=2, name='A', v='Sz', via='add'),
          dict(op='addnew', s=1, name='A.B', v='Sz', via='set')]
E_KIDS = [dict(op='newchild', pth=[1, 1], name='C', v='Sw', props=[['d', 'S3']]), dict(op='gonchild', pth=[1, 1], name='C', v='Sww', props=[]),
          dict(op='gonchild', pth=[1, 1], name='E', v='-', props=[['f', 'S1']]), dict(op='rmchild', pth=[1, 1, 1]), dict(op='rmchild', pth=[1, 1, 2])]
E_PROPS = [dict(op='setprop', pth=[1, 1], name='C', v='Snew'), dict(op='setprop', pth=[1, 1], name='c', v='N'), dict(op='setprop', pth=[1, 1], name='E', v='Se'),
           dict(op='setprop', pth=[1, 1], name='Value', v='Sval'), dict(op='setprop', pth=[1, 1], name='aname', v='San'), dict(op='setprop', pth=[2, 1], name='Alt', v='Sn'),
           dict(op='setattr', pth=[2, 1], name='alt', v='Sm'), dict(op='setattr', pth=[2, 1], name='alt', v='N'), dict(op='setvalue', pth=[1, 1], v='I0'),
           dict(op='setvalue', pth=[1, 1, 1], v='Sq')]
E_ZERO = [dict(op='setvalue', pth=[1, 1], v='I0'), dict(op='setvalue', pth=[1, 1, 1], v='I0'), dict(op='setvalue', pth=[2, 1, 1], v='F0.0')]
E_SECS = [dict(op='newsec', name='Two', cols=['x', ' y ']), dict(op='gonsec', name='ONE', cols=['y']), dict(op='gonsec', name='Three', cols=['k']), dict(op='gonsec', name='two', cols=[]),
          dict(op='delsec', name='one'), dict(op='delsec', name='TWO'), dict(op='delsec', name='Nope'), dict(op='sortsecs', order=['two', 'ROOT']), dict(op='sortsecs', order=['Three', 'one', 'nope']),
          dict(op='addarg', s=2, name='beta', front=True), dict(op='addarg', s=2, name='ALT', front=False), dict(op='rmarg', s=2, name='alt'), dict(op='rmarg', s=2, name='BETA'),
          dict(op='newterm', s=2, name='Zed', v='S1', props=[]), dict(op='newterm', s=2, name='b', v='S2', props=[]), dict(op='sortterms', s=2, given=False, order=[]),
          dict(op='sortterms', s=2, given=True, order=['ZED', 'root.b'])]

IDSTARTS = [[['SDataset', 'SFoo Bar'], ['SVersion', 'S3']],
            [['SName', 'Sold'], ['SIdentifier', 'Sid-1'], ['SOrigin', 'SEx.com'], ['SDataset', 'Sds'], ['SVersion', 'S'], ['SVersion.Major', 'S2'], ['SVersion.Patch', 'S5']],
            [['STitle', 'St']], [['SName', 'Sn'], ['SSection', 'SOne'], ['SDataset', 'Sother']]]
E_IDENT = [dict(op='ensureid'), dict(op='updver'), dict(op='cleanse'), dict(op='updname', force=False, create=True, report=False, mod='-'),
           dict(op='updname', force=True, create=False, report=True, mod='-'), dict(op='updname', force=False, create=True, report=True, mod='S+1'),
           dict(op='updname', force=False, create=False, report=True, mod='N')]
E_IDEDIT = [dict(op='gonterm', s=1, name='Dataset', v='-', props=[]), dict(op='newterm', s=1, name='Dataset', v='Sa-b C', props=[]), dict(op='newterm', s=1, name='Version', v='S7', props=[]),
            dict(op='newterm', s=1, name='Time', v='S2010', props=[]), dict(op='delterms', s=1, name='Root.Name'), dict(op='delterms', s=1, name='Root.Dataset'),
            dict(op='setvalue', pth=[1, 1], v='N'), dict(op='newterm', s=1, name='Variant', v='S  ', props=[]), dict(op='newterm', s=1, name='Name', v='S', props=[])]


def edit_job(name, ops, n, starts, invs=('InvDoc',), props=('StepAllowed',), tail=lambda w: [], build=None, **kw):
    """Every sequence of n operations; tail(ops) gives the operations that follow"""
    files = {PATH: []}
    if any(s and s[0][0] == 'SDeclare' for s in starts):
        files['w/d.csv'] = DFILE

    def wrap(hs):
        out = []
        for k, h in enumerate(hs):
            rows, q = starts[h[0] - 1], [dict(ops[i - 1], d=1) for i in h[1:]]
            if build:
                out.append(build(k, dict(files, **{PATH: rows}), q))
            else:
                out.append(dict(files=dict(files, **{PATH: rows}), ops=[load_file()] + q + tail(q), **kw))
        return out

    return dict(name='edit-' + name, module='MCEdit', menu=dict(files=files, starts=starts, ops=ops), len=n, invariants=list(invs), properties=list(props), view='View', wrap=wrap,
                bounds='every sequence of up to %d operations out of %d, from %d documents' % (n, len(ops), len(starts)))


def include_job(name, menu, invs, ops=lambda files: [load_file()]):
    def wrap(hs):
        return [dict(files=h, ops=ops(h)) for h in hs]

    size = 1
    for f in menu:
        size *= len(f['rows']) ** (f['n'] - len(f['pre']))
    return dict(name='files-' + name, module='MCInclude', menu=menu, len=0, invariants=list(invs), wrap=wrap,
                bounds='%d ways to fill %d files' % (size, len(menu)))


def inc_menu(n1, n2, n3, lead=()):
    return [dict(path='w/main.csv', pre=[], n=n1, rows=[['SInclude', 'Ssub/a.csv'], ['SA', 'Sx', 'Sp'], ['SSection', 'SOne', 'SAlt'], ['S.B', 'Sy']]),
            dict(path='w/sub/a.csv', pre=[], n=n2, rows=[['SInclude', 'Sb.csv'], ['SSection', 'STwo', 'SNote'], ['SA.C', 'Sz', 'Sq'], ['S.D', 'Sw']]),
            dict(path='w/sub/b.csv', pre=list(lead), n=n3 + len(lead), rows=[['SInclude', 'S../main.csv'], ['SB', 'Su', 'Sv'], ['SInclude', 'Snone.csv']])]


def decl_menu(n1, n2):
    return [dict(path='w/main.csv', pre=[['SDeclare', 'Sd']], n=n1 + 1, rows=[['SA', 'Sx', 'Sp'], ['SA.C', 'Sz'], ['SSyn', 'Sw'], ['SSection', 'SSec'], ['SB', 'Sy'], ['S.C', 'Su']]),
            dict(path='w/d.csv', pre=[['SSection', 'SDeclaredSections'], ['SDeclareSection', 'SSec', 'SC', 'SNote'],
                                      ['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType', 'SSection', 'SSynonym', 'SInheritsFrom']], n=n2 + 3,
                 rows=[['SDeclareTerm', 'SRoot.A', 'San', 'S', 'SSec'], ['SDeclareTerm', 'SA.C', 'Scn', 'Ssequence', 'SSec'], ['SDeclareTerm', 'SB', 'Sbn', 'S', 'SSec', 'S', 'SRoot.A'],
                       ['SDeclareTerm', 'SSyn', 'S', 'S', 'S', 'SRoot.A'], ['SDeclareTerm', 'SB.C', 'S', 'Sscalar', 'SNope'], ['SDeclareTerm', 'SRoot.B', 'S', 'S', 'S', 'S', 'SRoot.A']])]


# ---- histories ------------------------------------------------------------------------------------------------------

def variant(rows):
    """The same rows in capitals, with an explicit Root, padded, with blank rows in between"""
    out = []
    for r in rows:
        n = r[0][1:].strip() if r else ''
        if not n or n[0] == '#':
            out.append(r)
            continue
        special = n.lower() in ('section', 'header')
        name = n if '.' in n else 'Root.' + n
        out.append(['S ' + name.upper() + ' '] + [('S' + c[1:].upper() if special else 'S  ' + c[1:] + ' ') if c[0] == 'S' else c for c in r[1:]] + ([] if special else ['S', 'S ']))
        out.append(['S # no'])
    return out


def c05(rows):
    v = variant(rows)
    return [load_rows(rows), load_rows(v, 2), dict(op='cmp05', d=1, rows1=rows, rows2=v)]


def c08(rows):
    return [load_rows(rows)] + [dict(op='dict', d=1, what='doc', pth=[], rep=r) for r in (True, False)] + [dict(op='dict', d=1, what='sec', pth=[1], rep=True)]


def find(names, how='find', v='-', secs=(), multi=0):
    return dict(op='find', d=1, how=how, names=names, multi=multi, v=v, secs=list(secs), secl=0, props=[], pth=[], via='doc')


FINDS = [find(['A']), find(['Root.b']), find(['*.*']), find(['*.c']), find(['a.*']), find(['A.C']), find(['b', 'A'], multi=1), find(['A'], secs=['one']), find(['Root.*'], secs=['ROOT']),
         find(['A'], how='first'), find(['D'], how='value'), find(['A'], v='Sx'), find(['Nope'], how='getv')]


def c18(rows):
    cuts = [i for i, r in enumerate(rows) if i and r[0].lower() == 'ssection']
    if not cuts:
        return [load_rows(rows)]
    parts = [rows[a:b] for a, b in zip([0] + cuts, cuts + [len(rows)])]
    ops = [load_rows(rows), load_rows(parts[0], 2)] + [load_rows(p, 2, True) if k % 2 else dict(op='loadrows', d=2, rows=p) for k, p in enumerate(parts[1:])]
    seen = True
    for p in parts:                 # the comparison is about parts that name no parent of another part
        names = set()
        for r in p:
            n = [x.strip().lower() for x in r[0][1:].split('.')]
            if len(n) == 2 and n[0] and n[0] not in names:
                seen = False
            if len(n) == 1 or n[0]:
                names.add(n[-1])
    return ops + ([dict(op='cmp18', d=1)] if seen else [])


READS = [dict(op='dict', d=1, what='doc', pth=[], rep=True), dict(op='rt', d=1, fmt='csv'), dict(op='rt', d=1, fmt='lines'), find(['*.*']), dict(op='getsec', d=1, name='one'),
         dict(op='asver', d=1, mod='-'), dict(op='misc', d=1)]


def c20(k, files, ops):
    """The same file in two documents; the operations are dealt out to them in one of several ways"""
    ways = [lambda i: 1 + i % 2, lambda i: 2 - i % 2, lambda i: 1, lambda i: 1 + (i > 0)]
    w = ways[k % len(ways)]
    return dict(files=files, ops=[load_file(1), load_file(2)] + [dict(o, d=w(i)) for i, o in enumerate(ops)] + [load_file(1 + k % 2)], watch=True, skip=True)


def c21(k, files, ops):
    how = [('write', 'csv'), ('write', 'txt'), ('csv', 'csv'), ('lines', 'txt'), ('csv', 'txt'), ('lines', 'csv'), ('write', 'dat'), ('write', 'json')][k % 8]
    old = ['', 'old\n' * 50][k // 8 % 2]
    return dict(files=files, ops=[load_file()] + ops + [dict(op='write', d=1, how=how[0], ext=how[1], base='w/out', existing=old)])


def c23(rows):
    return [dict(op='reg', d=1, name='root.A', cls='ClsA', via='doc'), dict(op='reg', d=1, name='Root.Header', cls='ClsA', via='doc'), load_rows(rows),
            dict(op='newterm', d=1, s=1, name='a', v='Sn', props=[]), dict(op='reg', d=1, name='ROOT.b', cls='.ClsB', via='parser'),
            dict(op='newterm', d=1, s=1, name='B', v='Sn', props=[]), dict(op='unreg', d=1, name='Root.A'), load_rows(rows), dict(op='gonterm', d=1, s=1, name='A', v='Sfresh', props=[])]


def cli(mode, name='', inplace=False, path=PATH):
    return dict(op='cli', d=1, mode=mode, path=path, name=name, inplace=inplace, sub=False)


CLI = [[cli('csv'), cli('lines')], [cli('json'), cli('find', 'A')], [cli('find', 'Root.B'), cli('json', inplace=True)], [cli('lines', inplace=True), cli('terms')],
       [cli('pretty'), cli('yaml')], [cli('find', 'A.C'), cli('csv', inplace=True)], [cli('create'), cli('default')], [cli('create', path='w/new.csv'), cli('default', inplace=True)]]


def c27(hs):
    return [dict(files={PATH: h}, ops=CLI[k % len(CLI)]) for k, h in enumerate(hs)]


def c11(hs):
    size = 40
    return [dict(files={}, ops=[dict(op='tokens', d=1, text=t, via='text') for t in hs[k:k + size]]) for k in range(0, len(hs), size)]


def props_read(q):
    """Read the properties of the terms that the operations were about"""
    seen = [[1, 1]]
    for o in q:
        p = o.get('pth')
        if p and len(p) == 2 and p not in seen:
            seen.append(p)
    return [dict(op='getprops', d=1, pth=seen[-1], names=['C', 'e', 'value', 'aname', 'alt', 'nope', 'name'])]


REF_FILES = {'metadata.csv': [['SInclude', 'Sw/metadata.csv'], ['SC', 'Stop']],
             'w/pkg/metadata.csv': [['SDeclare', 'Sdecl'], ['SA', 'Sx', 'Sy'], ['SInclude', 'Sb.csv'], ['SSection', 'SOne', 'SAlt'], ['S.B', 'Sz', 'Sq']],
             'w/pkg/decl.csv': [['SSection', 'SDeclaredTerms', 'STermValueName'], ['SDeclareTerm', 'SRoot.A', 'Sname']],
             'w/pkg/b.csv': [['SB', 'Su']],
             'w/v.1/metadata.csv': [['SC', 'Sdotted'], ['SInclude', 'S../pkg/b.csv']],
             'w/metadata.csv': [['SC', 'Sother']],
             'w/t.txt': 'A: p|q\n====One|Alt\nA: r|s\n'}
REF_ZIPS = {'w/p.zip': {'metadata.csv': [['SZ', 'Szip'], ['S.B', 'Sy']]},
            'w/pkg/q.zip': {'q/metadata.csv': [['SZ', 'Sinner']], 'q/data.csv': [['Sa', 'Sb']]}}


def ref_job(n):
    heads = ['', 'file:', '$/', 'file:$/', 'file://$/', 'metatab+file:', 'metatab+file:$/', 'metatab+file://$/']
    steps = ['w', 'pkg', 'v.1', '.', '..', 'metadata.csv', 'b.csv', 't.txt', 'p.zip', 'q.zip', 'none.csv', 'q.zip#q/metadata.csv', '']

    def ops(refs):
        out = []
        for k, r in enumerate(refs):
            vias = ['str', 'url', 'target', 'doc'] if r.startswith('metatab+') else ['str', 'url', 'target']
            out += [dict(op='refload', d=1, ref=r, via=vias[k % len(vias)]), dict(op='refinfo', d=1, ref=r, name='data.csv')]
        return out

    def wrap(hs):
        hs = sorted(hs)
        return [dict(files=REF_FILES, zips=REF_ZIPS, ops=ops(hs[i:i + 8])) for i in range(0, len(hs), 8)]

    names = list(REF_FILES) + [z + '/' + m for z in REF_ZIPS for m in REF_ZIPS[z]]
    return dict(name='references', module='MCRef', menu=dict(heads=heads, steps=steps, names=names), len=n,
                invariants=['InvHead', 'InvMeta', 'InvSteps', 'InvDir', 'InvThere', 'InvOwn'], wrap=wrap,
                bounds='every reference of up to %d steps out of %d after %d beginnings, on %d files' % (n, len(steps), len(heads), len(names)))


def jobs(prop, deep):
    n = lambda a, b: b if deep else a
    J = []
    both = [START, DSTART]
    if prop == 'C01':
        J = [rows_job('names', n(4, 5), ['Inv01', 'InvDoc'], as_load)]
    elif prop == 'C02':
        J = [rows_job('parents', n(4, 6), ['Inv01', 'Inv02', 'InvDoc'], as_load)]
    elif prop == 'C03':
        J = [rows_job('sections', n(4, 6), ['Inv03', 'InvDoc'], as_load)]
    elif prop == 'C04':
        J = [rows_job('columns', n(4, 5), ['Inv04'], as_load), rows_job('cells', n(4, 5), ['InvDoc'], as_load)]
    elif prop == 'C05':
        J = [rows_job('rows', n(3, 4), ['Inv05'], c05)]
    elif prop == 'C06':
        J = [include_job('include', inc_menu(3, 2, 1) if not deep else inc_menu(4, 3, 1), ['InvSplice', 'InvUnsound'])]
    elif prop == 'C07':
        J = [include_job('declare', decl_menu(2, 2) if not deep else decl_menu(3, 3), ['InvTyped', 'InvSyn', 'InvInherit', 'InvDeclErr'])]
    elif prop == 'C08':
        J = [rows_job('dicts', n(4, 5), ['Inv08', 'Inv08s'], c08),
             rows_job('shapes', n(3, 4), ['Inv08s'], lambda r: [load_file()] + c08(r)[1:], files={'w/s.csv': SHAPES}, pre=[['SDeclare', 'Ss'], ['SA', 'Sx']])]
    elif prop == 'C09':
        J = [rows_job('text', n(3, 5), ['Inv09'], lambda r: [load_rows(r), dict(op='rt', d=1, fmt='csv')]),
             edit_job('rt', E_TERMS[:8] + E_KIDS + E_PROPS[:4] + E_ZERO, n(2, 3), [START], ['Inv09'], [], tail=lambda q: [dict(op='rt', d=1, fmt='csv')])]
    elif prop == 'C10':
        J = [rows_job('text', n(3, 5), ['Inv10'], lambda r: [load_rows(r), dict(op='rt', d=1, fmt='lines')]),
             edit_job('rt', E_TERMS[:8] + E_KIDS + E_PROPS[:4] + E_ZERO, n(2, 3), [START], ['Inv10'], [], tail=lambda q: [dict(op='rt', d=1, fmt='lines')])]
    elif prop == 'C11':
        J = [dict(name='lines', module='MCLines', menu=dict(chars=['a', ':', '|', '\\', '#', '=', ' ', '\n'], pre=['', 'a:', '====']), len=n(4, 5),
                  invariants=['InvRows', 'InvCells', 'InvSec', 'InvWrite'], wrap=c11, bounds='every text of up to %d characters out of 8, after 3 beginnings' % n(4, 5))]
    elif prop == 'C12':
        J = [rows_job('rows', n(3, 4), ['Inv12'], lambda r: [load_rows(r)] + FINDS),
             edit_job('find', E_TERMS, n(2, 3), both, ['Inv12'], [], tail=lambda q: FINDS[:8])]
    elif prop == 'C13':
        J = [edit_job('terms', E_TERMS + E_KIDS, n(3, 4), [START]), edit_job('mixed', E_TERMS + E_MORE + E_KIDS + E_PROPS + E_SECS, n(2, 3), both + [[]])]
    elif prop == 'C14':
        J = [edit_job('props', E_PROPS + E_KIDS, n(3, 4), both, ['Inv14'], tail=props_read)]
    elif prop == 'C15':
        J = [edit_job('sections', E_SECS, n(3, 4), both + [[]], tail=lambda q: [dict(op='getsec', d=1, name=x) for x in ('ONE', 'two')])]
    elif prop == 'C16':
        J = [edit_job('name', E_IDENT + E_IDEDIT, n(2, 4), IDSTARTS, ['InvDoc'], ['IdentStepAllowed'])]
    elif prop == 'C17':
        J = [edit_job('version', E_IDENT[1:4] + E_IDEDIT, n(2, 3), IDSTARTS, ['Inv17'], ['IdentStepAllowed'],
                      tail=lambda q: [dict(op='asver', d=1, mod=m) for m in ('-', 'N', 'S+1', 'S-2', 'S+', 'S9')])]
    elif prop == 'C18':
        J = [rows_job('rows', n(4, 5), ['Inv18'], c18)]
    elif prop == 'C19':
        J = [edit_job('read', E_TERMS[:6] + E_KIDS[:3] + E_SECS[:3] + E_IDENT[3:4], n(2, 3), both + IDSTARTS[:2], ['InvDoc'], [], tail=lambda q: READS, twice=True)]
    elif prop == 'C20':
        J = [edit_job('two', E_TERMS + E_KIDS + E_PROPS[:4] + E_SECS[:8], n(2, 3), both, ['InvDoc'], [], build=c20)]
    elif prop == 'C21':
        J = [edit_job('write', E_IDENT[:4] + E_IDEDIT + E_TERMS[:3], n(2, 3), IDSTARTS + [START], ['InvDoc'], [], build=c21)]
    elif prop == 'C22':
        J = [include_job('include', inc_menu(3, 2, 1, [['S# c', 'Sx']]) if not deep else inc_menu(4, 3, 1, [['S# c', 'Sx']]), ['InvUnsound', 'InvPlace'])]
    elif prop == 'C23':
        J = [rows_job('dicts', n(3, 4), ['InvDoc'], c23)]
    elif prop == 'C24':
        J = [rows_job('pack', n(4, 5), ['Inv24'], lambda r: [load_file(), dict(op='pack', d=1)],
                      files={'w/p.csv': PACK_DECL}, pre=[['SDeclare', 'Sp'], ['SIdentifier', 'Sid']]),
             rows_job('files', n(4, 5), ['Inv24'], lambda r: [load_file(), dict(op='pack', d=1)],
                      files={'w/p.csv': PACK_DECL}, pre=[['SDeclare', 'Sp'], ['SIdentifier', 'Sid'], ['SSection', 'SSchema', 'SDataType'], ['STable', 'St1'], ['STable.Column', 'Sc1', 'Sint']])]
    elif prop == 'C25':
        J = [rows_job('rows', n(3, 5), ['Inv25', 'Inv01', 'Inv04'], as_load), include_job('include', inc_menu(3, 2, 1), ['InvRowFile'])]
    elif prop == 'C26':
        J = [rows_job('schema', n(4, 6), ['Inv26'], lambda r: [load_rows(r), dict(op='cleanschema', d=1), dict(op='cleanschema', d=1)],
                      pre=[['SSection', 'SSchema', 'SDataType', 'SDescription', 'SOther']])]
    elif prop == 'C27':
        J = [dict(rows_job('dicts', n(3, 4), ['InvDoc'], as_load), wrap=c27)]
    elif prop == 'C28':
        J = [ref_job(n(3, 4))]
    return J
