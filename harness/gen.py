"""Seeded random histories for each property."""
import random

NAMES = ['Title', 'A', 'B', 'C', 'Table', 'Column', 'Name', 'foo_bar', 'Taproot', 'Datafile', 'X-Y', 'Note', 'Term2', 'Rootstock', 'caf\u00e9', 'My Term', '2nd', 'A1', 'MyRoot', 'Subsection', 'Includes']
SECS = ['Schema', 'Contacts', 'Two Words', 'S1', 'root', 'Root', 'Roots', '\u00dcber', 'S 2']
COLS = ['Alt', 'Type', 'Name', 'Desc', 'x', 'Note', 'B', 'foo_bar', '', 'Two Words', 'Alt-2', '\u00e9t']
VALS = ['', 'v', 'hello world', ' padded ', '5', '0', '#hash', 'a|b', 'x:y', 'caf\u00e9', '   ', 'None', "it's", 'a,b', '"q"',
        'long value with several words', 'a.b', '-', '=====', '\\']


# pieces that values are put together from: words that mean something elsewhere, numbers, punctuation, letters of all kinds
PIECES = ['# ', '#', '## ', 'http://x.org/a', '?q=1', '1', '0', '1.5', '-5', '+3', '1e5', '007', 'true', 'False', 'NULL', 'nan', 'N/A', 'none', '=', '==', '*', '.', '..', '-',
          '--', '/', '\\', '|', '\\|', ':', '::', ': ', ',', ';', '"', '""', "'", '%', '%s', '{}', '{0}', '&', '@', '@value', '$', '!', '?', '(', ')', '[1]', '<b>', '_', '~', '^', '`',
          'Section', 'Root', 'root.', 'Root.Title', 'Header', 'Include', 'Declare', 'Term', 'a', 'b', 'Ab', 'word', 'Two Words', ' ', '  ', '\t', 'caf\u00e9', '\u00df', '\u4e2d', '\U0001f600',
          '\u00a0', '\u0130', '\n', 'a\nb', 'x', 'value', 'A.B', 'A.B.C', '.B', '2020-01-02', 'x' * 40]


class G(object):

    def __init__(self, rng):
        self.r = rng

    def chance(self, p):
        return self.r.random() < p

    def case(self, s):
        k = self.r.randrange(6)
        if len(s) > 4 and s.lower().endswith('root') and self.chance(0.5):
            return s[:-4] + 'Root'
        return s.upper() if k == 0 else s.lower() if k == 1 else s.title() if k == 2 else s

    def pad(self, s):
        k = self.r.randrange(8)
        return ' ' + s if k == 0 else s + ' ' if k == 1 else '\t' + s + '  ' if k == 2 else s

    def name(self, pool=NAMES, depth=True):
        r = self.r
        k = r.randrange(10)
        n = self.case(r.choice(pool))
        if not depth or k < 5:
            s = n
        elif k < 7:
            s = self.case(r.choice(pool)) + '.' + n
        elif k < 9:
            s = '.' + n
        else:
            s = 'Root.' + n
        return self.pad(s)

    def value(self, typed=False):
        if typed and self.chance(0.15):
            return self.r.choice(['I5', 'I0', 'F2.5', 'F0.0', 'N', 'I12', 'F3.0'])
        return 'S' + self.text()

    def text(self):
        if self.chance(0.35):
            return ''.join(self.r.choice(PIECES) for _ in range(self.r.choice([1, 1, 2, 2, 3, 5])))
        v = self.r.choice(VALS)
        if self.chance(0.3):
            v = v + self.r.choice(['', '1', 'q', ' z'])
        return v

    def cells(self, n=None, typed=False):
        n = self.r.randrange(0, 4) if n is None else n
        if n and self.chance(0.03):
            n = self.r.randrange(9, 14)         # more than ten
        out = []
        for _ in range(n):
            if self.chance(0.35):
                out.append('S' + self.r.choice(['', ' ', '']))
            elif typed and self.chance(0.1):
                out.append(self.r.choice(['I5', 'I0', 'F1.5']))
            else:
                out.append('S' + self.pad(self.text() if self.chance(0.5) else self.r.choice(VALS)))
        return out

    def blank(self):
        return self.r.choice([[], ['S'], ['S  ', 'Sx'], ['S#c', 'Sy'], ['S # c'], ['S', 'Sx', 'Sy'], ['S#'], ['S#A', 'Sv', 'Sq']])

    def section_row(self, secs=SECS):
        row = ['S' + self.pad(self.case('Section')), 'S' + self.pad(self.case(self.r.choice(secs)))]
        if self.chance(0.04):
            row += ['Sw%d' % k for k in range(self.r.randrange(9, 14))]
        elif self.chance(0.7):
            row += ['S' + self.pad(self.r.choice(COLS)) for _ in range(self.r.randrange(0, 4))]
        return row

    def header_row(self):
        row = ['S' + self.case('Header'), 'S' + self.r.choice(['', 'Name', 'value', 'MyVal', '@value'])]
        return row + ['S' + self.pad(self.r.choice(COLS)) for _ in range(self.r.randrange(0, 4))]

    def term_row(self, names=NAMES, known=None, typed=False):
        """A term row; dotted names mostly use a parent that occurred"""
        n = self.name(names)
        if known and '.' in n and not n.strip().startswith('.') and not n.strip().lower().startswith('root.') and self.chance(0.95):
            n = self.case(self.r.choice(known)) + '.' + n.split('.')[1]
        if self.chance(0.05):
            n = n.rstrip() + '.1' if '.' not in n and known and n.strip().lower() in known else n
        row = ['S' + n]
        if self.chance(0.95):
            row.append(self.value(typed))
            row += self.cells(typed=typed) if self.chance(0.6) else []
        return row

    def rows(self, n, secs=SECS, names=NAMES, typed=False, header=True, p_sec=0.15, strict=False, same=False):
        out, known = [], []
        for _ in range(n):
            k = self.r.random()
            if k < 0.12:
                out.append(self.blank())
            elif k < 0.12 + p_sec:
                out.append(self.section_row(secs))
                if header and self.chance(0.12):
                    out.append(self.header_row())
                if same:
                    known = []
            elif k < 0.17 + p_sec and header:
                out.append(self.header_row())
            else:
                row = self.term_row(names, known, typed)
                nm = row[0][1:].strip().lower()
                if '.' in nm and not nm.startswith('.') and not nm.startswith('root.') and nm.split('.')[0].strip() not in known \
                        and (strict or self.chance(0.9)):
                    row[0] = 'S' + nm.split('.')[1]
                    nm = row[0][1:]
                if not nm.startswith('.') and not (same and nm.split('.')[-1].strip().isdigit()):
                    known.append(nm.split('.')[-1].strip())
                out.append(row)
                if self.chance(0.12) and nm and nm.split('.')[0].strip() != nm.split('.')[-1].strip():      # the same name again
                    out.append([row[0], self.value(typed)] + (row[2:] if self.chance(0.3) else []))
        return out


def load(rows, d=1, more=False):
    return dict(op='load', d=d, src='rows', rows=rows, more=more)


def load_file(path, d=1, more=False):
    return dict(op='load', d=d, src='file', path=path, more=more)


def strs(rows):
    """Rows a CSV file can carry: text cells only"""
    return [['S' + c[1:] if c != 'N' else 'S' for c in r] for r in rows]


# ---- text in the Lines format ----------------------------------------------------------------------------------

def lines_text(g, rows):
    out = []
    for r in rows:
        if not r:
            out.append('')
            continue
        n = r[0][1:].strip()
        cells = [c[1:].replace('|', '\\|').replace('\n', ' ') for c in r[1:]]
        if n.lower() == 'section' and g.chance(0.5) and cells:
            out.append('=' * g.r.randrange(4, 8) + ' ' + '|'.join(cells))
        elif not n:
            out.append('')
        else:
            out.append(n.replace(':', '') + ':' + g.r.choice(['', ' ']) + '|'.join(cells))
    return '\n'.join(out)


# ---- declarations ------------------------------------------------------------------------------------------------

DCOLS = ['TermValueName', 'ChildPropertyType', 'Section', 'InheritsFrom', 'Synonym']
DNAMES = ['A', 'B', 'C', 'Table', 'Column', 'Datafile', 'Note', 'Name', 'Altname']
DSECS = ['Schema', 'Contacts', 'S1']


def decl_rows(g, broken=False, inherit=True, syn=True):
    """The rows of a declaration file"""
    r = g.r
    cols = list(DCOLS)
    r.shuffle(cols)
    if g.chance(0.2):
        cols.insert(r.randrange(len(cols)), r.choice(['Description', '']))
    secs = [s for s in DSECS if g.chance(0.8)]
    rows = [['SSection', 'SDeclaredSections'] + (['SX'] if g.chance(0.2) else [])]
    for s in secs:
        rows.append(['SDeclareSection', 'S' + g.case(s)] + ['S' + r.choice(COLS + ['']) for _ in range(r.randrange(0, 4))])
    sec = ['SSection', 'SDeclaredTerms']
    head = ['S' + c for c in cols]
    if g.chance(0.25):
        rows += [sec, ['SHeader', 'STerm'] + head]
    else:
        rows.append(sec + head)
    known, insec = [], {}
    for _ in range(r.randrange(1, 7)):
        if g.chance(0.12):
            rows.append(g.blank())
        k = r.random()
        if k < 0.5:
            name = r.choice(DNAMES)
        elif k < 0.6:
            name = 'Root.' + r.choice(DNAMES)
        else:
            name = r.choice(DNAMES[:5]) + '.' + r.choice(DNAMES)
        name = g.case(name)
        d = dict.fromkeys(DCOLS, '')
        if g.chance(0.5):
            d['TermValueName'] = r.choice(['name', 'Name', 'title', 'val', 'note', 'x'])
        if g.chance(0.5):
            d['ChildPropertyType'] = r.choice(['scalar', 'sequence', 'sconcat', 'bconcat', 'any'])
        if secs and g.chance(0.6):
            d['Section'] = g.case(r.choice(secs))
        if inherit and known and d['Section'] and g.chance(0.4):
            sup = r.choice(known)
            if sup.lower().split('.')[-1] != name.lower().split('.')[-1]:
                d['InheritsFrom'] = g.case(sup if '.' in sup else 'Root.' + sup)
        if syn and g.chance(0.12):
            d['Synonym'] = g.case(r.choice(DNAMES[:5]) if g.chance(0.6) else r.choice(DNAMES[:3]) + '.' + r.choice(DNAMES))
        if broken and g.chance(0.1):
            d['Section'] = 'Nowhere'
        if broken and g.chance(0.1):
            d['InheritsFrom'], d['Section'] = 'Root.A', ''
        if '.' not in name or name.lower().startswith('root.'):
            known.append(name)
        rows.append(['SDeclareTerm', 'S' + name] + ['S' + d.get(c, '') for c in cols])
    if g.chance(0.1):                   # in any order, but a declaration file starts with a section
        rest = rows[1:]
        r.shuffle(rest)
        rows = rows[:1] + rest
    return rows


def declared_doc(g, i, n=8, broken=False, inherit=True, syn=True, header=True, names=None, same=False):
    """Files and load of a document that declares a file"""
    dn = g.r.choice(['decl', 'decl.csv', 'my-decl'])
    path = 'w/' + (dn if dn.endswith('.csv') else dn + '.csv')
    files = {path: decl_rows(g, broken, inherit, syn)}
    rows = strs(g.rows(n, secs=DSECS + ['Root', 'Other'], names=names or (DNAMES + ['Title']), header=header, strict=not broken, same=same))
    names = [r[1][1:] for r in files[path] if len(r) > 1 and r[0] == 'SDeclareTerm']
    for n in g.r.sample(names, min(len(names), g.r.choice([0, 1, 2]))):      # declared terms, several times
        a, _, b = n.partition('.')
        if not b or a.lower() == 'root':
            block = [['S' + g.case(n), 'S' + g.text()] for _ in range(g.r.choice([1, 2, 3]))]
        elif a.lower() != b.lower():
            block = [['S' + a, 'S' + g.text()]]
            for _ in range(g.r.choice([1, 2, 2, 3])):
                block.append(['S' + g.r.choice([a + '.', '.']) + g.case(b), 'S' + g.text()])
            if g.chance(0.3):
                block[0].append('S' + g.text())
        else:
            continue
        ok = [k for k in range(len(rows) + 1) if k == len(rows) or not rows[k] or '.' not in rows[k][0]]
        p = g.r.choice(ok)
        rows[p:p] = block
    at = 0 if g.chance(0.8) else g.r.randrange(len(rows) + 1)
    rows.insert(at, ['S' + g.case('Declare'), 'S' + dn])
    files['w/main.csv'] = rows
    return files, [load_file('w/main.csv')]


def base_doc(g, i, n=None, typed=True, decl=0.3, empty=0.1, header=True, inherit=True, syn=True, d=1, same=True):
    """Some document to start from"""
    n = g.r.choice([1, 2, 3, 5, 7, 9]) if n is None else n
    if g.chance(empty):
        return {}, [dict(op='new', d=d)]
    if g.chance(decl):
        files, ops = declared_doc(g, i, n, inherit=inherit, syn=syn and not same, header=header, same=same)
        ops[0]['d'] = d
        return files, ops
    return {}, [load(g.rows(n, typed=typed, header=header, strict=True, same=same), d=d)]


# ---- edits, generated while the history runs ------------------------------------------------------------------------

PROPS = ['Alt', 'note', 'Title', 'x', 'foo_bar', 'Type']
EVALS = ['Sv', 'Shello world', 'S5', 'Sa|b', 'Sx:y', 'S#h', 'I7', 'F2.5', 'Sit, is', 'Scaf\u00e9', 'SNone', 'S-']
SPECIAL = {'section', 'root', 'header', 'include', 'declare'}


def all_paths(p, top=False, declares=False):
    out = []

    def walk(t, pth):
        out.append((pth, t))
        for n, c in enumerate(t['k'], 1):
            walk(c, pth + [n])

    for si, s in enumerate(p['secs'], 1):
        for ti, t in enumerate(s['t'], 1):
            if t['r'] == 'declare' and not declares:
                continue
            if top:
                out.append(([si, ti], t))
            else:
                walk(t, [si, ti])
    return out


class Edits(object):

    def __init__(self, g, world, d, typed=True):
        self.g, self.w, self.d, self.typed = g, world, d, typed

    @property
    def p(self):
        return self.w.last(self.d)

    @property
    def dc(self):
        return self.w.trace['dcs'][self.p['dc'] - 1]

    def val(self, none=0.1):
        g = self.g
        if g.chance(none):
            return 'N'
        v = g.r.choice(EVALS) if g.chance(0.75) else 'S' + g.text().strip()
        return v if self.typed or v[0] == 'S' else 'S' + v[1:]

    def props(self):
        g = self.g
        names = g.r.sample(PROPS, g.r.choice([0, 0, 1, 2]))
        return [[g.case(n), self.val()] for n in names]

    def tname(self):
        g = self.g
        sup = set(self.dc['sup'].values())
        names = [n for n in NAMES if 'root.' + n.lower() not in sup]
        n = g.case(g.r.choice(names))
        return ('Root.' if g.chance(0.2) else '') + n

    def sec(self):
        return self.g.r.randrange(1, len(self.p['secs']) + 1)

    def path(self, top=False, kids=False):
        ps = all_paths(self.p, top)
        if kids:
            ps = [x for x in ps if len(x[0]) > 2]
        return self.g.r.choice(ps) if ps else (None, None)

    def secname(self):
        return self.g.case(self.p['secs'][self.sec() - 1]['n'])

    def make(self, kind):
        g, d = self.g, self.d
        o = lambda **k: dict(op=kind, d=d, **k)
        names = {s['n'].lower() for s in self.p['secs']}
        if kind in ('newsec', 'gonsec'):
            n = g.case(g.r.choice(SECS[:4] + ['New', 'Other', 'S2']))
            if kind == 'gonsec' and g.chance(0.4):
                n = self.secname()
            if kind == 'newsec' and n.lower() in names:
                return None
            return o(name=n, cols=g.r.sample(['Alt', 'Type', 'Note', 'x', 'foo_bar'], g.r.randrange(0, 4)))
        if kind == 'delsec':
            n = g.case(g.r.choice(['Nope', 'S1', 'Schema'])) if g.chance(0.3) else self.secname()
            return None if n.lower() == 'root' else o(name=n)
        if kind == 'sortsecs':
            q = [self.secname() for _ in range(g.r.randrange(0, 4))] + (['Nope'] if g.chance(0.2) else [])
            return o(order=q)
        if kind == 'addarg':
            return o(s=self.sec(), name=g.case(g.r.choice(PROPS + COLS[:5])), front=g.chance(0.5))
        if kind == 'rmarg':
            s = self.sec()
            a = [x for x in self.p['secs'][s - 1]['a'] if x]
            return o(s=s, name=g.case(g.r.choice(a)) if a and g.chance(0.8) else 'Nope')
        if kind == 'newterm':
            return o(s=self.sec(), name=self.tname(), v=self.val(), props=self.props())
        if kind == 'gonterm':
            s = self.sec()
            t = self.p['secs'][s - 1]['t']
            sup = set(self.dc['sup'].values())
            t = [x for x in t if 'root.' + x['r'] not in sup]
            name, v = self.tname(), g.r.choice(['-', '-', self.val()])
            if t and g.chance(0.6):
                x = g.r.choice(t)
                name = g.case(x['r'])
                if g.chance(0.3):
                    v = x['v'] if x['v'] not in ('N', 'S') else '-'
            if name.lower() in SPECIAL or name.isdigit() or '.' in name and name.split('.')[1].isdigit():
                return None
            return o(s=s, name=name, v=v, props=self.props())
        if kind == 'setitem':
            op = self.make('gonterm')
            return None if op is None or op['v'] in ('-', 'N', 'S') else o(s=op['s'], name=op['name'], v=op['v'])
        if kind == 'addnew':
            n = self.tname()
            return o(s=self.sec(), name=n if '.' in n or g.chance(0.9) else 'A.' + n, v=self.val(), via=g.r.choice(['add', 'move', 'set']))
        if kind in ('newchild', 'gonchild'):
            pth, t = self.path()
            if pth is None or len(pth) > 5:
                return None
            n = g.case(g.r.choice(PROPS + NAMES[:4]))
            if kind == 'gonchild' and t['k'] and g.chance(0.5):
                n = g.case(g.r.choice(t['k'])['r'])
            if n.lower() in SPECIAL:
                return None
            if g.chance(0.2):
                n = g.case(t['r']) + '.' + n
            v = self.val()
            if kind == 'gonchild' and g.chance(0.3):
                v = '-'
            return o(pth=pth, name=n, v=v, props=self.props())
        if kind == 'setprop':
            pth, t = self.path()
            if pth is None or len(pth) > 5:
                return None
            n = g.r.choice(PROPS + ['value', t['tv'], t['tv']] + [k['r'] for k in t['k']] * 2)
            if n.lower() in SPECIAL:
                return None
            return o(pth=pth, name=g.case(n), v=self.val(0.3))
        if kind == 'setattr':
            pth, t = self.path()
            if pth is None:
                return None
            s = self.p['secs'][pth[0] - 1]
            ok = [c for c in (s['h'] or s['a']) if c and not c[0].isdigit() and c.lower() in
                  ('alt', 'type', 'name', 'desc', 'x', 'note', 'b', 'foo_bar')] + [t['tv']] + ['value']
            n = g.r.choice(ok)
            if n == '@value':
                return None
            return o(pth=pth, name=g.case(n), v=self.val(0.3))
        if kind == 'setvalue':
            pth, t = self.path()
            return None if pth is None else o(pth=pth, v=g.r.choice(['I0', 'I0', 'F0.0']) if self.typed and g.chance(0.2) else self.val(0.2))
        if kind == 'rmterm':
            pth, t = self.path(top=True)
            return None if pth is None else o(pth=pth, via=g.r.choice(['sec', 'doc']))
        if kind == 'rmchild':
            pth, t = self.path(kids=True)
            return None if pth is None else o(pth=pth)
        if kind == 'delterms':
            s = self.sec()
            t = self.p['secs'][s - 1]['t']
            return o(s=s, name=g.case(g.r.choice(t)['r']) if t and g.chance(0.8) else g.r.choice(['Nope', 'Root.*', 'Root.A']))
        if kind == 'cleansec':
            return o(s=self.sec())
        if kind == 'sortterms':
            s = self.sec()
            t = self.p['secs'][s - 1]['t']
            q = [g.case(g.r.choice(['', 'root.']) + g.r.choice(t)['r']) for _ in range(g.r.randrange(0, 4)) if t]
            return o(s=s, given=g.chance(0.7), order=q + (['root.nope'] if g.chance(0.2) else []))
        if kind == 'moveterm':
            pth, t = self.path(top=True)
            return None if pth is None else o(pth=pth, s=self.sec(), via=g.r.choice(['add', 'move', 'set']))
        if kind == 'setterms':
            names = g.r.sample([n for n in NAMES if n != 'Term2'], g.r.randrange(1, 4))
            return o(s=self.sec(), items=[[g.case(n), self.val(), self.props()] for n in names])
        if kind == 'load':
            rows = g.rows(g.r.randrange(1, 5), strict=True, same=True)
            return dict(op='load', d=d, src='rows', rows=rows, more=True) if g.chance(0.6) else dict(op='loadrows', d=d, rows=rows)
        raise ValueError(kind)

    def some(self, kinds):
        for _ in range(20):
            op = self.make(self.g.r.choice(kinds))
            if op is not None:
                return op
        return None


EDITS = ['newsec', 'gonsec', 'delsec', 'sortsecs', 'addarg', 'rmarg', 'newterm', 'newterm', 'gonterm', 'newchild', 'gonchild',
         'setprop', 'setattr', 'setvalue', 'rmterm', 'rmchild', 'delterms', 'cleansec', 'sortterms', 'moveterm', 'moveterm',
         'setterms', 'load', 'setitem', 'addnew']
SOFT = ['newsec', 'gonsec', 'sortsecs', 'addarg', 'newterm', 'newterm', 'gonterm', 'newchild', 'newchild', 'gonchild', 'setprop',
        'setattr', 'setvalue', 'rmchild', 'rmterm', 'sortterms', 'moveterm', 'setterms', 'setitem', 'addnew']


def editing(base, tail):
    """A history that runs base ops and then the ops that tail(world) yields"""

    def ops(world):
        for op in base:
            yield op
        if world.trace['ev'][-1]['x']:
            return
        for op in tail(world):
            yield op

    return ops


# ---- histories per property -----------------------------------------------------------------------------------------

def parse_history(rng, i):
    g = G(rng)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
    k = rng.random()
    if k < 0.1:
        return include_history(rng, i, bad=0.0)
    rows = g.rows(n, typed=True)
    if k < 0.4:
        return dict(files={}, ops=[load(rows)])
    if k < 0.55:
        return dict(files={'w/main.csv': strs(rows)}, ops=[load_file('w/main.csv')])
    if k < 0.68:
        return dict(files={}, ops=[dict(op='load', d=1, src='text', text=lines_text(g, strs(rows)), more=False)])
    if k < 0.8:
        files, ops = declared_doc(g, i, n)
        return dict(files=files, ops=ops)
    # rows and then more rows
    ops = [load(rows)]
    for _ in range(rng.choice([1, 1, 2])):
        r2 = g.rows(rng.choice([1, 2, 3, n]), typed=True)
        ops.append(dict(op='loadrows', d=1, rows=r2) if g.chance(0.5) else load(r2, 1, True))
    return dict(files={}, ops=ops)


def include_history(rng, i, bad=0.15, blanks=True, percent=True):
    g = G(rng)
    r = rng
    a, b, c, d = r.sample(['inc1', 'inc2', 'Inc3', 'inc.v4', 'INC', 'inc_5', 'inc-6', 'Section', 'http-inc'] + ['In c', 'a b.c', 'x%20y' if percent else 'x y', '100%' if percent else '100', 'a+b', 'caf\u00e9'] * blanks, 4)
    sub = r.choice(['sub', 'Sub', 's.ub', 'sub'] + ['my dir', 'd%20r' if percent else 'd r', 'a+b', '\u00e9t\u00e9'] * blanks)
    names = ['w/main.csv', 'w/%s.csv' % a, 'w/%s/%s.csv' % (sub, b), 'w/%s/%s.csv' % (sub, c), 'w/%s.csv' % d]
    rel = {n: '../' if n.count('/') > 1 else '' for n in names}
    files = {}
    for k, f in enumerate(names):
        rows = strs(g.rows(r.randrange(1, 6), strict=not g.chance(0.1), p_sec=0.25))
        for _ in range(r.choice([0, 1, 1, 2]) if k else r.choice([1, 1, 2])):
            later = names[k + 1:]
            if g.chance(bad / 2):
                t = 'nope.csv'
            elif g.chance(bad / 2):
                t = rel[f] + r.choice(names[:k + 1])[2:]
            elif later:
                to = r.choice(later)
                if f.count('/') > 1 and to.count('/') > 1:
                    t = to.split('/')[-1]
                else:
                    t = rel[f] + to[2:]
            else:
                continue
            if g.chance(0.15):
                t = './' + t
            rows.insert(r.randrange(len(rows) + 1), ['S' + g.pad(g.case('Include')), 'S' + g.pad(t)])
        files[f] = rows
    if g.chance(0.25):
        files['w/decl.csv'] = decl_rows(g, syn=False)
        main = files['w/main.csv']
        main.insert(0 if g.chance(0.7) else r.randrange(len(main)), ['SDeclare', 'S' + r.choice(['decl', 'decl.csv'])])
    elif g.chance(bad):
        files['w/main.csv'].insert(r.randrange(len(files['w/main.csv'])), ['SDeclare', 'Smissing-decl'])
    return dict(files=files, ops=[load_file('w/main.csv')])


def error_history(rng, i):
    k = rng.random()
    if k < 0.55:
        return include_history(rng, i, bad=0.5)
    g = G(rng)
    if k < 0.75:
        rows = g.rows(rng.randrange(1, 9))
        if g.chance(0.6):
            rows.insert(rng.randrange(len(rows) + 1), ['SNever.Child', 'Sv'])
        if g.chance(0.3):
            rows.insert(rng.randrange(len(rows) + 1), ['SSection', 'SX'])
        return dict(files={}, ops=[load(rows)])
    if k < 0.9:
        files, ops = declared_doc(g, i, broken=True)
        return dict(files=files, ops=ops)
    return parse_history(rng, i)


def variant_rows(g, rows):
    """Other rows that mean the same"""
    out = []
    sp = lambda s: g.r.choice(['', '', ' ', '  ', '\t']) + s + g.r.choice(['', '', ' ', '  '])
    flip = lambda s: ''.join(c.upper() if g.chance(0.5) else c.lower() for c in s) if g.chance(0.7) else s
    if all(ord(c) < 128 for r in rows for x in r for c in x) is False:
        pass
    for r in rows:
        while g.chance(0.2):
            out.append(g.blank())
        if not r or not r[0][1:].strip() or r[0][1:].strip()[0] == '#':
            if g.chance(0.5):
                out.append(r)
            continue
        n = r[0][1:].strip()
        if '.' not in n and g.chance(0.3):
            n = 'Root.' + n
        elif n.lower().startswith('root.') and g.chance(0.5):
            n = n[5:]
        if '.' in n and g.chance(0.2):
            a, b = n.split('.')
            n = a + ' .' + b if a.strip() else n
        row = ['S' + sp(flip(n))]
        special = n.lower().split('.')[-1].strip() in ('section', 'header') and (n.lower().startswith('root') or '.' not in n)
        for c in r[1:]:
            if c[0] != 'S':
                row.append(c)
            elif special:
                row.append('S' + sp(flip(c[1:].strip())))
            elif len(row) == 1 and not c[1:]:
                row.append(c)
            elif len(row) == 1 and not c[1:].strip():
                row.append(c)
            else:
                row.append('S' + sp(c[1:].strip()) if c[1:].strip() else 'S' + g.r.choice(['', ' ']))
        if not special and len(row) > 1:
            row += ['S' + g.r.choice(['', ' ']) for _ in range(g.r.choice([0, 0, 1, 2]))]
        out.append(row)
    while g.chance(0.2):
        out.append(g.blank())
    return out


def c05_history(rng, i):
    g = G(rng)
    rows = [[c for c in r] for r in g.rows(rng.choice([1, 2, 3, 5, 8, 12]), typed=True, strict=True)]
    rows = [['S' + ''.join(ch for ch in c[1:] if ord(ch) < 128) if c[0] == 'S' else c for c in r] for r in rows]
    v = variant_rows(g, rows)
    return dict(files={}, ops=[load(rows, 1), load(v, 2), dict(op='cmp05', d=1, rows1=rows, rows2=v)])


def c18_history(rng, i):
    g = G(rng)
    if g.chance(0.15):                  # a part that names parents of an earlier one
        a = g.rows(rng.randrange(1, 6), strict=True)
        b = g.rows(rng.randrange(1, 4), strict=True)
        names = [x[0][1:].split('.')[-1].strip() for x in a if x and x[0][1:].strip() and '#' not in x[0]]
        for n in names[:2]:
            b.insert(rng.randrange(len(b) + 1), ['S' + n + '.' + g.r.choice(NAMES), 'S' + g.text()])
        return dict(files={}, ops=[load(a), load(b, 1, True) if g.chance(0.5) else dict(op='loadrows', d=1, rows=b)])
    parts = []
    for k in range(rng.choice([2, 2, 3, 4])):
        p = g.rows(rng.randrange(1, 6), strict=True, header=True)
        if k:
            p.insert(0, g.section_row())
        parts.append(p)
    ops = [load([r for p in parts for r in p], 1), load(parts[0], 2)]
    for p in parts[1:]:
        ops.append(load(p, 2, True) if g.chance(0.5) else dict(op='loadrows', d=2, rows=p))
    return dict(files={}, ops=ops + [dict(op='cmp18', d=1)])


def c07_history(rng, i):
    g = G(rng)
    files, ops = declared_doc(g, i, rng.choice([2, 4, 6, 9]), broken=g.chance(0.25))
    if g.chance(0.15):
        files['w/decl2.csv'] = decl_rows(g)
        files['w/main.csv'].insert(1, ['SDeclare', 'Sdecl2'])
    if g.chance(0.3):
        return dict(files=files, ops=editing(ops, lambda w: [dict(op='loadrows', d=1, rows=g.rows(4, secs=DSECS, names=DNAMES, strict=True))]))
    return dict(files=files, ops=ops)


def some_edits(g, w, d, kinds, n, typed=True):
    e = Edits(g, w, d, typed)
    for _ in range(n):
        op = e.some(kinds)
        if op is not None:
            yield op
        if w.trace['ev'][-1]['x'] in ('Timeout', 'RecursionError') or w.trace['ev'][-1]['p'][d - 1] == 0:
            return


def alive(w, d=1):
    e = w.trace['ev'][-1]
    return e['p'][d - 1] != 0


def c08_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, decl=0.6)

    def tail(w):
        for op in some_edits(g, w, 1, SOFT, rng.randrange(0, 4)):
            yield op
        yield dict(op='dict', d=1, what='doc', pth=[], rep=True)
        yield dict(op='dict', d=1, what='doc', pth=[], rep=False)
        p = w.last(1)
        for s in range(1, len(p['secs']) + 1):
            yield dict(op='dict', d=1, what='sec', pth=[s], rep=g.chance(0.5))
        ts = all_paths(p)
        for pth, t in rng.sample(ts, min(3, len(ts))):
            yield dict(op='dict', d=1, what='term', pth=pth, rep=g.chance(0.5))

    return dict(files=files, ops=editing(base, tail))


def rt_history(fmt):
    def make(rng, i):
        g = G(rng)
        files, base = base_doc(g, i, decl=0.3, syn=g.chance(0.3))

        def tail(w):
            yield dict(op='rt', d=1, fmt=fmt)
            for op in some_edits(g, w, 1, SOFT, rng.randrange(0, 7)):
                yield op
            yield dict(op='rt', d=1, fmt=fmt)

        return dict(files=files, ops=editing(base, tail))

    return make


TOKENS = ['A', 'Title', ':', '|', '\\|', '\\', '#', '=', '====', '=====', ' ', '\t', 'v', 'x y', 'B.c', '\n', '\n', '\n', '\r\n', 'S1', '"', ',',
          'Section', '::', '||', '===', 'caf\u00e9']


def c11_history(rng, i):
    ops = []
    for _ in range(6):
        text = ''.join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 4, 8, 14, 20])))
        if rng.random() < 0.4:
            text = '\n'.join(rng.choice(['Title: a b', 'A: v | x \\| y | z', '==== Sec | c1 | c2', '# comment', '  # comment', '', '   ',
                                         'A.b: http://x.y/z', 'NoColon', ':v', 'A:', 'A: | |', '=====', '=== no', 'A: \\|', 'A: a\\|b|c', '\tA : v'])
                             for _ in range(rng.randrange(1, 6)))
        via = rng.choice(['text', 'text', 'file', 'handle'])
        if '\r' in text or '\f' in text:
            via = 'text'
        ops.append(dict(op='tokens', d=1, text=text, via=via))
    return dict(files={}, ops=ops)


def find_ops(g, w, d, n):
    p = w.last(d)
    r = g.r
    ts = all_paths(p)
    joins = sorted({(t['p'], t['r']) for _, t in ts})
    vals = sorted({t['v'] for _, t in ts})
    for _ in range(n):
        def nm():
            k = r.random()
            a, b = r.choice(joins) if joins else ('root', 'a')
            if k < 0.45:
                s = a + '.' + b
            elif k < 0.6:
                s = b
            elif k < 0.7:
                s = a + '.*'
            elif k < 0.8:
                s = '*.' + b
            elif k < 0.85:
                s = '*.*'
            elif k < 0.93:
                s = r.choice(DNAMES + ['Title'])
            else:
                s = r.choice(['Root.Nope', 'nope', 'Root.*', 'Root.Root'])
            return g.case(s)

        multi = r.choice([0, 0, 0, 1, 2])
        names = [nm() for _ in range(r.randrange(1, 4) if multi else 1)]
        secs, secl = [], 0
        if g.chance(0.4):
            secl = r.choice([0, 0, 1, 2])
            secs = [g.case(r.choice(p['secs'])['n']) if g.chance(0.9) else 'Nope' for _ in range(r.randrange(1, 3) if secl else 1)]
        v = '-'
        if g.chance(0.3) and vals:
            v = r.choice(vals) if g.chance(0.85) else 'Szzz'
        props = []
        if g.chance(0.25) and ts:
            t = r.choice(ts)[1]
            if t['k']:
                c = r.choice(t['k'])
                if c['r'] not in ('term', 'value', 'section', 'self') and c['r'].isidentifier() and c['v'] != 'N':
                    props = [[c['r'], c['v'] if g.chance(0.8) else 'Szzz']]
        how = r.choice(['find', 'find', 'find', 'first', 'value', 'get', 'getv', 'kids'])
        op = dict(op='find', d=d, how=how, names=names, multi=multi, v=v, secs=secs, secl=secl, props=props, pth=[], via='doc')
        if how == 'kids':
            if not ts:
                continue
            pth, t = r.choice(ts)
            op.update(pth=pth, names=[g.case(r.choice([c['r'] for c in t['k']] + ['nope', 'x']))], secs=[], props=[], via=r.choice(['doc', 'qual']),
                      v=v if g.chance(0.3) else '-')
        elif how == 'get':
            op.update(secs=[], props=[], v='-')
        elif how == 'getv':
            op.update(props=[], v='-')
        if how not in ('kids', 'getv', 'get') and g.chance(0.3) and p['secs']:
            op.update(via='sec', secs=[g.case(r.choice(p['secs'])['n'])], secl=0, props=[])
        if how != 'find' and any(x.endswith('*') or x.lower().endswith('section') for x in names) and how != 'kids':
            op['how'] = 'find'
        yield op


def c12_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, n=rng.choice([3, 6, 9, 12]), decl=0.5, empty=0.03)

    def tail(w):
        for op in find_ops(g, w, 1, 8):
            yield op
        for op in some_edits(g, w, 1, SOFT, rng.randrange(0, 5)):
            yield op
        if alive(w):
            for op in find_ops(g, w, 1, 8):
                yield op

    return dict(files=files, ops=editing(base, tail))


def c13_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, decl=0.25)
    return dict(files=files, ops=editing(base, lambda w: some_edits(g, w, 1, EDITS, rng.choice([3, 6, 10, 16]))))


def getprops_op(g, w, d):
    ts = all_paths(w.last(d))
    if not ts:
        return None
    pth, t = g.r.choice(ts)
    return props_of(g, d, pth, t)


def props_of(g, d, pth, t, extra=()):
    bad = {'section', 'root', 'header', 'term', 'parent', 'row', 'col'}
    names = [k['r'] for k in t['k'] if k['r'] not in bad and k['r'].isidentifier()] + ['value', 'nope', 'name', 'url', 'x', 'alt']
    names = g.r.sample(names, min(4, len(names))) + [e for e in extra if e.lower().isidentifier() and e.lower() not in bad]
    if t['tv'] != '@value' and t['tv'].lower().isidentifier() and t['tv'].lower() not in bad:
        names.append(t['tv'])
    return dict(op='getprops', d=d, pth=pth, names=[g.case(n) for n in names])


def c14_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, decl=0.4, empty=0.0)

    def tail(w):
        e = Edits(g, w, 1)
        for _ in range(rng.choice([2, 4, 6])):
            op = e.some(['setprop', 'setprop', 'setattr', 'setvalue', 'gonchild', 'newchild', 'rmchild'])
            if op is not None:
                yield op
                if not alive(w):
                    return
                if op['op'] != 'rmchild':
                    s = w.last(1)
                    t = [t for p, t in all_paths(s) if p == op['pth']]
                    if t:
                        yield props_of(g, 1, op['pth'], t[0], [op['name']] if op.get('name') and '.' not in op['name'] else [])
            yield getprops_op(g, w, 1)

    return dict(files=files, ops=editing(base, tail))


def getsec_op(g, w, d):
    n = g.r.choice(w.last(d)['secs'])['n'] if g.chance(0.8) else 'Nope'
    return dict(op='getsec', d=d, name=g.case(n))


def c15_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, decl=0.3)
    kinds = ['newsec', 'gonsec', 'gonsec', 'delsec', 'sortsecs', 'sortsecs', 'addarg', 'rmarg', 'sortterms', 'sortterms']

    def tail(w):
        for _ in range(rng.choice([3, 5, 8])):
            for op in some_edits(g, w, 1, kinds if g.chance(0.75) else ['newterm', 'setterms', 'moveterm', 'load'], 1):
                yield op
            if not alive(w):
                return
            if g.chance(0.6):
                yield getsec_op(g, w, 1)

    return dict(files=files, ops=editing(base, tail))


IDNAMES = ['Dataset', 'Origin', 'Time', 'Space', 'Grain', 'Variant']
IDVALS = ['Sfoo', 'SFoo Bar', 'Sa-b', 'S  padded ', 'Sa_b', 'Sx.y', 'S2010', 'SA B  C', 'Sexample.com', 'S', 'S!!', 'Scaf\u00e9', 'I2016', 'Sa--b',
          'S-x', "Sit's", 'SB.C-D E']


def ident_rows(g):
    r = g.r
    rows = []
    for n in IDNAMES:
        if g.chance(0.55 if n != 'Dataset' else 0.75):
            rows.append(['S' + g.case(n), r.choice(IDVALS)])
            if g.chance(0.05):
                rows.append(['S' + g.case(n), r.choice(IDVALS)])
    if g.chance(0.6):
        rows.append(['SName', r.choice(['S', 'Sold-name', 'Sfoo', 'Sexample.com-foo-1', 'SFoo Bar'])])
    if g.chance(0.5):
        rows.append(['SIdentifier', r.choice(['S', 'Sabc', 'S1234-5', 'I7'])])
    k = r.random()
    if k < 0.3:
        rows.append(['SVersion', r.choice(['S1', 'S12', 'I3', 'F4.0', 'S2.5', 'Sabc', 'S', 'S-1', 'F2.5', 'S007', 'S+2', 'S10.2.3'])])
    elif k < 0.75:
        ver = [['SVersion', r.choice(['S', 'S1', 'S9.9.9'])]]
        for n in ['Major', 'Minor', 'Patch', 'Build']:
            if g.chance(0.6):
                ver.append(['S' + r.choice(['Version.', '.']) + n, r.choice(['S1', 'S0', 'S12', 'I3', 'S', 'Sx', 'F2.0', 'S2.5', 'I0', 'F2.5'])])
        tail = ver[1:]
        r.shuffle(tail)
        pos = r.randrange(len(rows) + 1)
        r.shuffle(rows)
        rows[pos:pos] = [ver[0]] + tail
    else:
        r.shuffle(rows)
    if g.chance(0.3):
        rows.append(['SSection', 'SS1'])
        for n in r.sample(IDNAMES + ['Name', 'Identifier', 'Version', 'Identifier'], r.choice([1, 1, 2, 4])):
            rows.append(['S' + g.case(n), r.choice(IDVALS)])
    return rows


MODS = ['-', 'N', 'S+1', 'S-1', 'S+', 'S-', 'S+10', 'S5', 'Sxyz', 'I4', 'S-20', 'S1.2', 'S+0', 'F2.5']


def ident_history(kinds):
    def make(rng, i):
        g = G(rng)
        base = [load(ident_rows(g))]

        def tail(w):
            for _ in range(rng.choice([2, 4, 6])):
                k = rng.choice(kinds)
                if k == 'updname':
                    op = dict(op='updname', d=1, force=g.chance(0.3), create=g.chance(0.5), report=g.chance(0.6),
                              mod=rng.choice(MODS) if g.chance(0.35) else '-')
                    yield op
                    if g.chance(0.4) and alive(w):
                        yield dict(op, force=False)
                elif k == 'asver':
                    yield dict(op='asver', d=1, mod=rng.choice(MODS))
                elif k == 'edit':
                    p = w.last(1)
                    ok = [(pth, t) for pth, t in all_paths(p)]
                    if ok and g.chance(0.6):
                        pth, t = rng.choice(ok)
                        if t['r'] == 'version' and g.chance(0.6):
                            yield dict(op='setprop', d=1, pth=pth, name=g.case(rng.choice(['Major', 'Minor', 'Patch', 'Build'])),
                                       v=rng.choice(['S1', 'I5', 'S7', 'N', 'Sx']))
                        else:
                            yield dict(op='setvalue', d=1, pth=pth, v=rng.choice(IDVALS[:8] + ['S3', 'I9', 'N']))
                    else:
                        yield dict(op='newterm', d=1, s=1, name=rng.choice(IDNAMES + ['Name', 'Version']), v=rng.choice(IDVALS + ['S1']), props=[])
                else:
                    yield dict(op=k, d=1)
                if not alive(w):
                    return

        return dict(files={}, ops=editing(base, tail))

    return make


# ---- schemas and packages

def schema_rows(g, pack=False):
    r = g.r
    cols = r.sample(['Datatype', 'Title', 'Description', 'AltName', 'Note', 'Width'], r.randrange(0, 5))
    rows = [['SSection', 'S' + g.case('Schema')] + ['S' + g.case(c) for c in cols]]
    tables = r.sample(['t1', 'T1', 't2', 'orders', 'My Orders', 'caf\u00e9', '10'], r.randrange(0 if not pack else 1, 4))
    for t in tables:
        rows.append(['STable', 'S' + t] + (['S' + r.choice(['', 'x']) for _ in range(r.randrange(0, 3))]))
        for c in range(r.randrange(0 if g.chance(0.2) else 1, 4)):
            if g.chance(0.1):
                rows.append(g.blank())
            row = ['S' + r.choice(['Table.Column', '.Column', 'table.column']), 'S' + r.choice(['id', 'name', 'qty', 'Qty', 'a b', '\u00e9', 'c%d' % c])]
            row += ['S' + (r.choice(['int', 'str', 'text', 'float', 'date', 'integer', 'unicode', 'v w', 'Int', 'STR', 'number', 'interval', '0', g.text()]) if g.chance(0.5) else '') for _ in cols]
            rows.append(row)
            if g.chance(0.2):
                rows.append(['SColumn.' + r.choice(['Extra', 'Title', 'Datatype']), 'S' + r.choice(['e', '', 'int'])])
    return rows


PACK_DECL = [['SSection', 'SDeclaredSections'], ['SDeclareSection', 'SSchema', 'SDatatype'], ['SDeclareSection', 'SResources', 'SName'],
             ['SSection', 'SDeclaredTerms', 'STermValueName', 'SChildPropertyType', 'SSection'],
             ['SDeclareTerm', 'STable', 'Sname', 'Ssequence', 'SSchema'],
             ['SDeclareTerm', 'STable.Column', 'Sname', 'Ssequence', 'SSchema'],
             ['SDeclareTerm', 'SDatafile', 'Surl', 'Ssequence', 'SResources'],
             ['SDeclareTerm', 'SRoot.Title', 'Stitle', 'Sscalar', 'S']]


def pack_rows(g):
    r = g.r
    rows = [['SDeclare', 'Spackdecl']]
    for n in ['Title', 'Name', 'Identifier', 'Description', 'Keyword', 'Keyword']:
        if g.chance(0.6):
            rows.append(['S' + g.case(n), 'S' + r.choice(['abc', 'x y', '5', 'q'])])
    parts = []
    if g.chance(0.15):
        parts.append([['SSection', 'SIdentity'], ['S' + r.choice(['Name', 'Author', 'Title']), 'Sident']])
    if g.chance(0.9):
        sec = ['SSection', 'S' + g.case('Resources')]
        cols = r.choice([['Name'], ['Name', 'Table'], ['Table', 'Name', 'Title'], ['Name', '', 'Space']])
        q = [sec + ['S' + c for c in cols]]
        for _ in range(r.randrange(0, 4)):
            kind = r.choice(['Datafile', 'Datafile', 'DataFile', 'Reference'])
            row = ['S' + kind, 'S' + r.choice(['http://example.com/a.csv', 'a.csv', 'b.csv', 'My File.CSV', 'x#y', 'metapack+http://e.org/p.zip'])]
            row += ['S' + (r.choice(['t1', 'T1', 't2', 'orders', 'My Orders', 'caf\u00e9', '10', 'zzz']) if c in ('Name', 'Table') else '') for c in cols]
            q.append(row)
            if g.chance(0.2):
                q.append(['S.Note', 'Sn'])
        parts.append(q)
    if g.chance(0.93):
        parts.append(schema_rows(g, True))
    r.shuffle(parts)
    for p in parts:
        rows += p
    return rows


def c24_history(rng, i):
    g = G(rng)
    files = {'w/packdecl.csv': PACK_DECL, 'w/main.csv': pack_rows(g)}
    base = [load_file('w/main.csv')]

    def tail(w):
        yield dict(op='pack', d=1)
        if g.chance(0.4):
            for op in some_edits(g, w, 1, ['newterm', 'setvalue', 'newchild', 'rmchild', 'sortterms', 'moveterm', 'sortsecs', 'rmterm'], 3, typed=False):
                yield op
            if alive(w):
                yield dict(op='pack', d=1)

    return dict(files=files, ops=editing(base, tail))


def c26_history(rng, i):
    g = G(rng)
    rows = []
    if g.chance(0.4):
        rows.append(['STable', 'Srootlevel'])
    if g.chance(0.95):
        rows += schema_rows(g)
    if g.chance(0.3):
        rows += [['SSection', 'SOther', 'SAlt'], ['STable', 'Sx', 'Sy'], ['S.Column', 'Sc', 'Sd']]
    if not rows:
        rows = [['STitle', 'Sx']]
    base = [load(rows)]

    def tail(w):
        if g.chance(0.7):
            p = w.last(1)
            col = [(pth, t) for pth, t in all_paths(p) if t['r'] == 'column']
            for _ in range(rng.randrange(0, 4)):
                if not col:
                    break
                pth, t = rng.choice(col)
                yield dict(op='setprop', d=1, pth=pth, name=g.case(rng.choice(['Datatype', 'AltName', 'New', 'Note', 'Title'])), v=rng.choice(['S', 'Sv', 'S ', 'N', 'Sw'])) \
                    if g.chance(0.6) else dict(op='newchild', d=1, pth=pth, name=rng.choice(['Datatype', 'Fresh']), v=rng.choice(['S', 'Sv', 'N']), props=[])
                if not alive(w):
                    return
        yield dict(op='cleanschema', d=1)
        if alive(w):
            yield dict(op='cleanschema', d=1)

    return dict(files={}, ops=editing(base, tail))


# ---- documents and files

def read_ops(g, w, d, n):
    r = g.r
    for _ in range(n):
        k = r.choice(['dict', 'dictt', 'rt', 'rt', 'find', 'getprops', 'getsec', 'asver', 'pack', 'misc'])
        p = w.last(d)
        if k == 'dict':
            yield dict(op='dict', d=d, what='doc', pth=[], rep=g.chance(0.5))
        elif k == 'dictt':
            ts = all_paths(p)
            if ts:
                yield dict(op='dict', d=d, what='term', pth=r.choice(ts)[0], rep=g.chance(0.5))
        elif k == 'rt':
            yield dict(op='rt', d=d, fmt=r.choice(['csv', 'lines']))
        elif k == 'find':
            for op in find_ops(g, w, d, 1):
                yield op
        elif k == 'getprops':
            yield getprops_op(g, w, d)
        elif k == 'getsec':
            yield getsec_op(g, w, d)
        elif k == 'asver':
            yield dict(op='asver', d=d, mod=r.choice(MODS))
        else:
            yield dict(op=k, d=d)


def some_doc(g, i):
    k = g.r.random()
    if k < 0.6:
        return base_doc(g, i, decl=0.4)
    if k < 0.75:
        return {'w/packdecl.csv': PACK_DECL, 'w/main.csv': pack_rows(g)}, [load_file('w/main.csv')]
    return {}, [load(ident_rows(g))]


def c19_history(rng, i):
    g = G(rng)
    files, base = some_doc(g, i)

    def tail(w):
        for op in read_ops(g, w, 1, rng.choice([4, 8])):
            yield op
        for op in some_edits(g, w, 1, SOFT, rng.randrange(0, 4)):
            yield op
        if alive(w):
            for op in read_ops(g, w, 1, 4):
                yield op

    return dict(files=files, ops=editing(base, tail), twice=True)


def c20_history(rng, i):
    g = G(rng)
    files, base = base_doc(g, i, decl=0.5)
    if base[0]['op'] == 'load' and g.chance(0.6):
        base2 = [dict(base[0], d=2)]           # the same rows or file, hence the same declarations
    else:
        base2 = [load(g.rows(5, strict=True), 2)] if g.chance(0.7) else [dict(op='new', d=2)]

    def tail(w):
        for _ in range(rng.choice([4, 8, 12])):
            d = rng.choice([1, 2])
            if g.chance(0.15):
                for op in read_ops(g, w, d, 1):
                    yield op
            else:
                for op in some_edits(g, w, d, EDITS, 1):
                    yield op
            if not (alive(w, 1) and alive(w, 2)):
                return
        if base[0]['op'] == 'load' and g.chance(0.3):
            yield dict(base[0], d=rng.choice([1, 2]))

    return dict(files=files, ops=editing(base + base2, tail), watch=True, share=rng.choice(['', 'rows', 'generator']))


def c21_history(rng, i):
    g = G(rng)
    files, base = some_doc(g, i)

    def tail(w):
        for _ in range(rng.choice([1, 2, 3])):
            for op in some_edits(g, w, 1, SOFT, rng.randrange(0, 4)):
                yield op
            if not alive(w):
                return
            how = rng.choice(['write', 'write', 'csv', 'lines'])
            ext = rng.choice(['csv', 'csv', 'csv', 'txt', 'txt', 'txt', 'json', 'dat', '', 'CSV', 'text', 'csvx', 'bak', 'Txt', 'cs', 'tsv'])
            op = dict(op='write', d=1, how=how, ext=ext, base=rng.choice(['w/out', 'w/out', 'w/my out'] + (['w/v.1/out', 'w/sub.csv/out'] if not files else []) + (['w/out.csv', 'w/a.txt'] if ext else [])), existing=rng.choice(['', '', '@', 'old text\n' * 40]))
            if g.chance(0.3) and base[0]['op'] == 'load' and base[0]['src'] == 'file':
                op.update(base='w/main', ext='csv', existing='', to='own')
            elif g.chance(0.3) and base[0]['op'] == 'load' and base[0]['src'] == 'rows':
                op.update(base='w/metadata', ext='csv', to='none')
            else:
                op['to'] = rng.choice(['str', 'str', 'path', 'url', 'rel'])
            yield op
            if not alive(w):
                return
        if g.chance(0.2):
            yield dict(op='cli', d=2, mode='create', path=rng.choice(['w/new.csv', 'w/out.csv', 'w/empty.csv']), name=rng.choice(['', 'metatab', 'datapackage']), inplace=False, sub=False)

    return dict(files=dict(files, **{'w/empty.csv': []}), ops=editing(base, tail))


def c23_history(rng, i):
    g = G(rng)
    files = {}
    inh = g.chance(0.6)
    if inh:
        files['w/decl.csv'] = decl_rows(g, syn=g.chance(0.3))

    def ops(w):
        for _ in range(rng.randrange(1, 4)):
            n = g.r.choice(DNAMES[:7] + ['Title'])
            yield dict(op='reg', d=1, name=g.case('root.' + n) if g.chance(0.85) else 'table.column', cls=rng.choice(['ClsA', 'ClsB', '.ClsA', '.ClsB']), via=rng.choice(['doc', 'parser']))
        for k in range(rng.choice([1, 2, 3])):
            if k and g.chance(0.5) and w.reg:
                yield dict(op='unreg', d=1, name=g.case(rng.choice(sorted(w.reg))))
            rows = strs(g.rows(rng.randrange(2, 7), secs=DSECS, names=DNAMES[:7] + ['Title'], strict=True, header=False))
            if inh and g.chance(0.8):
                rows.insert(0, ['SDeclare', 'Sdecl'])
            fn = 'w/main%d.csv' % k
            w.write_files({fn: rows})
            yield load_file(fn)
            if w.trace['ev'][-1]['x']:
                return
            e = Edits(g, w, 1)
            for _ in range(rng.randrange(0, 4)):
                s = e.sec()
                kind = rng.choice(['newterm', 'newterm', 'gonterm', 'setterms'])
                name = g.case(rng.choice(DNAMES[:7] + ['Title']))
                if kind == 'setterms':
                    yield dict(op='setterms', d=1, s=s, items=[[name, 'Sv', []]])
                elif kind == 'newterm':
                    yield dict(op='newterm', d=1, s=s, name=rng.choice(['', 'Root.']) + name, v='Sv', props=[])
                elif 'root.' + name.lower() not in set(e.dc['sup'].values()):
                    yield dict(op='gonterm', d=1, s=s, name=name, v=rng.choice(['-', 'Snew']), props=[])

    return dict(files=files, ops=ops)


def c27_history(rng, i):
    g = G(rng)
    k = rng.random()
    path = 'w/' + rng.choice(['main', 'main', 'my.doc', 'My Doc', 'a-b_c', 'v1.2.3', '100%', 'caf\u00e9']) + '.csv'
    if k < 0.45:
        files, _ = declared_doc(g, i, rng.choice([3, 6, 9]))
    elif k < 0.7:
        files = {'w/main.csv': strs(g.rows(rng.choice([2, 5, 9]), strict=True))}
    elif k < 0.85:
        files = {'w/packdecl.csv': PACK_DECL, 'w/main.csv': pack_rows(g)}
    else:
        files = {'w/main.csv': lines_text(g, strs(g.rows(rng.choice([2, 5, 9]), strict=True)))}
        path = path[:-4] + '.txt'
    files[path] = files.pop('w/main.csv')
    ops = []
    rows = files[path] if path.endswith('.csv') else [['S' + x.split(':')[0]] for x in files[path].splitlines()]
    for _ in range(3):
        mode = rng.choice(['csv', 'lines', 'json', 'default', 'find', 'find', 'yaml', 'pretty', 'terms'])
        n = ''
        if mode == 'find':
            names = [r[0][1:].strip().lstrip('.') for r in rows if r and r[0][1:].strip() and r[0][1:].strip()[0] not in '#=']
            n = g.case(rng.choice(names + ['Root.Nope', 'Title']))
            if rng.random() < 0.3 and '.' not in n:
                n = 'Root.' + n
        ops.append(dict(op='cli', d=1, mode=mode, path=path if g.chance(0.95) else 'w/none.csv', name=n,
                        inplace=mode in ('json', 'yaml') + (('lines',) if path.endswith('.csv') else ()) and g.chance(0.5), sub=g.chance(0.02)))
    if g.chance(0.3):
        dn = [f for f in files if 'decl' in f]
        if dn:
            ops.append(dict(op='cli', d=1, mode=rng.choice(['decljson', 'declyaml']), path=dn[0], name='', inplace=False, sub=False))
    if g.chance(0.4):
        ops.append(dict(op='cli', d=1, mode='create', path=rng.choice(['w/new.csv', 'w/My New.v1.csv', path]), name=rng.choice(['', 'metatab', 'datapackage']), inplace=False, sub=False))
    if g.chance(0.4):
        ops.append(dict(op='cli', d=1, mode=rng.choice(['csv', 'default']) if path.endswith('.csv') else 'lines', path=path, name='', inplace=True, sub=False))
    return dict(files=files, ops=ops)


def c25_history(rng, i):
    k = rng.random()
    if k < 0.5:
        return parse_history(rng, i)
    if k < 0.8:
        return include_history(rng, i, bad=0.0)
    g = G(rng)
    files, base = base_doc(g, i, decl=0.2)
    return dict(files=files, ops=editing(base, lambda w: some_edits(g, w, 1, EDITS, rng.choice([2, 4, 8]))))


def dress(g, path):
    """A reference that names the file, or the directory of a metadata.csv"""
    r = g.r
    heads = ['', 'file:', '$/', 'file:$/', 'file://$/', 'metatab+file:', 'metatab+file:$/', 'metatab+file://$/']
    q = path.split('/')
    h = r.choice(heads[5:] if q[-1].endswith('.txt') else heads)
    if h.startswith('metatab') and len(q) > 1 and q[-1] == 'metadata.csv' and not any(x.endswith('.zip') for x in q) and g.chance(0.5):
        q = q[:-1] + ([''] if g.chance(0.3) else [])
    for k, x in enumerate(q):
        if x.endswith('.zip'):
            q, frag = q[:k + 1], '/'.join(q[k + 1:])
            if not h.startswith('metatab') and (frag not in ('metadata.csv',) or g.chance(0.5)):
                q[-1] += '#' + frag
            break
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.randrange(len(q))
        q[k:k] = r.choice([['.'], ['w', '..'] if k == 0 else ['.'], ['..', q[k - 1]] if k and q[k - 1] not in ('', '.', '..') else ['.'], [''] if k else ['.']])
    return h + '/'.join(q)


def c28_history(rng, i):
    g = G(rng)
    h = include_history(rng, i, bad=0.1, percent=False)
    files = dict(h['files'])
    files['metadata.csv'] = strs(g.rows(rng.randrange(1, 4), strict=True))
    files['metadata.csv'].append(['SInclude', 'S' + rng.choice(['w/main.csv', './w/metadata.csv'])])
    files['w/metadata.csv'] = files['w/main.csv'] if g.chance(0.5) else strs(g.rows(rng.randrange(1, 6), strict=True))
    d = 'w/' + rng.choice(['pkg', 'my dir', 'Pkg-1', 'a_b', 'x y z', 'pkg-1.0.2', 'ex.org', 'x.csv.d', '.hid', 'pkg.2'])
    files[d + '/metadata.csv'] = strs(g.rows(rng.randrange(1, 6), strict=True))
    if g.chance(0.4):
        files[d + '/' + 'more.csv'] = strs(g.rows(2, strict=True))
        files[d + '/metadata.csv'].append(['SInclude', 'Smore.csv'])
    if g.chance(0.4):
        files[rng.choice(['w', d]) + '/' + rng.choice(['my-metadata.csv', 'metadata.csv.csv', 'xmetadata.csv', 'm.v1.csv'])] = strs(g.rows(3, strict=True))
    text = rng.choice(['w', d]) + '/' + rng.choice(['doc.txt', 'meta data.txt', 'metadata.txt', 'a.metadata.txt', 'metadata.csv.txt'])
    files[text] = lines_text(g, strs(g.rows(rng.randrange(1, 6), strict=True)))
    zips = {}
    if g.chance(0.5):
        zips[rng.choice(['w', d]) + '/p.zip'] = {'metadata.csv': strs(g.rows(rng.randrange(1, 5), strict=True))}
    if g.chance(0.4):
        q = {'q/metadata.csv': strs(g.rows(rng.randrange(1, 5), strict=True)), 'q/data.csv': [['Sid', 'Sv'], ['S1', 'S2']]}
        if g.chance(0.3):
            q['q/a-metadata.csv'] = strs(g.rows(2, strict=True))
        zips['w/' + rng.choice(['q.zip', 'q-1.2.zip', 'metadata.zip'])] = {k: q[k] for k in rng.sample(sorted(q), len(q))}
    ok = [f for f in files if not set('%#?+:\u00e9\u00c9') & set(f)] + [z + '/' + m for z in zips for m in zips[z] if m.endswith('metadata.csv')]
    ops = []
    for _ in range(rng.randrange(4, 9)):
        f = rng.choice(ok) if g.chance(0.9) else rng.choice(['w/none.csv', d + '/nope/metadata.csv', 'w/none.txt'])
        ref = dress(g, f)
        if f not in ok and '..' in ref:
            ref = f if f.endswith('.csv') else 'metatab+file:' + f
        vias = ['str', 'url', 'target'] + ['doc', 'doc'] * ref.startswith('metatab+')
        ops.append(dict(op='refload', d=1, ref=ref, via=rng.choice(vias)))
        if g.chance(0.4):
            ops.append(dict(op='refinfo', d=1, ref=ref, name=rng.choice(['data.csv', 'x y.csv', 'sub/d.csv'])))
    return dict(files=files, zips=zips, ops=ops)


MAKERS = dict(
    C01=parse_history, C02=parse_history, C03=parse_history, C04=parse_history, C05=c05_history, C06=include_history, C07=c07_history,
    C08=c08_history, C09=rt_history('csv'), C10=rt_history('lines'), C11=c11_history, C12=c12_history, C13=c13_history, C14=c14_history,
    C15=c15_history, C16=ident_history(['updname', 'updname', 'ensureid', 'cleanse', 'edit']), C17=ident_history(['asver', 'asver', 'updver', 'edit']),
    C18=c18_history, C19=c19_history, C20=c20_history, C21=c21_history, C22=error_history, C23=c23_history, C24=c24_history, C25=c25_history,
    C26=c26_history, C27=c27_history, C28=c28_history)


def history(prop, seed, i):
    rng = random.Random('%s/%s/%s' % (prop, seed, i))
    h = MAKERS[prop](rng, i)
    h['id'] = 'r%s' % i
    return h
