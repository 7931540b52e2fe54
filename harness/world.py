"""Executes operation histories on the real metatab library, through its public API, and records what
can be observed as traces for the TLA+ trace specification (spec/Trace.tla).

A history is {"id", "files": {path: rows}, "ops": [op, ...]}; an op is a dict with at least "op" and "d"
(the document, 1 or 2).  The recorded trace has, for each op, the exception name ("" if none), an encoded
result and the projections of both documents after the op.
"""
import csv, io, pathlib, os, signal, shutil, sys, tempfile, json, zipfile

import warnings
warnings.simplefilter('ignore')

import metatab
from metatab import MetatabDoc, TermParser
from metatab.rowgen import TextRowGenerator, MetatabRowGenerator
from metatab.terms import Term, SectionTerm
import metatab.terms


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


# ---- cells ---------------------------------------------------------------------------------------------------

def enc(v):
    """value -> cell"""
    if v is None:
        return 'N'
    if isinstance(v, str):
        return 'S' + v
    if isinstance(v, bool):
        return 'B' + str(v)
    if isinstance(v, int):
        return 'I' + str(v)
    if isinstance(v, float):
        return 'F' + repr(v)
    return 'X' + type(v).__name__ + ':' + str(v)


def dec(c):
    """cell -> value"""
    t, s = c[0], c[1:]
    return {'N': lambda: None, 'S': lambda: s, 'I': lambda: int(s), 'F': lambda: float(s)}[t]()


def s_(v):
    return '-' if v is None else str(v)


# ---- projection ----------------------------------------------------------------------------------------------

def proj_term(t, rank, depth=0):
    if depth > 60:
        raise RecursionError('term tree too deep')
    return dict(p=str(t.parent_term).lower(), r=str(t.record_term).lower(), v=enc(t.value),
                tv=str(t.term_value_name), cp=str(t.child_property_type),
                a=[enc(a) for a in t.args],
                row=s_(t.row), col=s_(t.col), f=s_(t.file_name),
                o=rank.get(id(t), 0), c=type(t).__name__,
                k=[proj_term(c, {}, depth + 1) for c in t.children])


def projection(doc):
    """The document as the specification sees it, plus a list of broken links ('bad')"""
    bad = []
    secs = list(doc.sections.values())
    sec_ids = {id(s) for s in secs}

    in_secs = {}
    for s in secs:
        for t in s.terms:
            if id(t) in in_secs:
                bad.append('term-in-two-places:' + str(t.record_term))
            in_secs[id(t)] = s

    rank, n, seen = {}, 0, set()
    for t in doc.terms:
        if id(t) in seen:
            bad.append('term-listed-twice:' + str(t.record_term))
        seen.add(id(t))
        if id(t) in in_secs:
            n += 1
            rank[id(t)] = n
        elif t.file_type != 'declare':
            bad.append('listed-term-in-no-section:' + str(t.record_term))

    for k, s in doc.sections.items():
        if k != s.name.lower():
            bad.append('section-key:' + k)
        if s.doc is not doc:
            bad.append('section-of-other-document:' + k)
        for t in s.terms:
            if id(t) not in seen:
                bad.append('section-term-not-listed:' + str(t.record_term))
            if t.section is not s:
                bad.append('term-section:' + str(t.record_term))
            if t.doc is not doc:
                bad.append('term-document:' + str(t.record_term))
            stack, ids = [(t, 0)], {id(t)}
            while stack:
                u, dep = stack.pop()
                for c in u.children:
                    if id(c) in ids or dep > 60:
                        bad.append('term-listed-by-two-parents:' + str(c.record_term))
                        continue
                    ids.add(id(c))
                    if c.parent is not u:
                        bad.append('child-parent:' + str(c.record_term))
                    if c.section is not s:
                        bad.append('child-section:' + str(c.record_term))
                    if c.doc is not doc:
                        bad.append('child-document:' + str(c.record_term))
                    if id(c) in rank or id(c) in seen:
                        bad.append('child-listed-as-top-level:' + str(c.record_term))
                    stack.append((c, dep + 1))

    return dict(secs=[dict(n=s.name, a=[str(a) for a in s.args], h=[str(a) for a in (s.header_args or [])],
                           dv=s.default_term_value_name, det=False,
                           t=[proj_term(t, rank) for t in s.terms]) for s in secs],
                bad=sorted(bad)[:8])


def decl_project(terms, sections, sup=()):
    f = lambda d: dict(tvn=d.get('termvaluename', ''), cpt=d.get('childpropertytype', ''), sec=d.get('section', ''),
                       inh=d.get('inheritsfrom', ''), syn=d.get('synonym', ''))
    return dict(T={k: f(v) for k, v in terms.items()},
                S={k: dict(a=list(v['args']), t=list(v['terms'])) for k, v in sections.items()},
                sup={k: v for k, v in dict(sup).items() if v})


def decl_projection(doc):
    return decl_project(doc.decl_terms, doc.decl_sections, doc.super_terms)


def flat(v, pre=''):
    """A converted document as a list of path=value strings"""
    if isinstance(v, dict):
        out = [pre + '{}']
        for k, x in v.items():
            out += flat(x, pre + '/' + str(k))
        return out
    if isinstance(v, (list, tuple)):
        out = [pre + '[%d]' % len(v)]
        for i, x in enumerate(v, 1):
            out += flat(x, pre + '/' + str(i))
        return out
    return [pre + '=' + enc(v)]


def csv_rows(text):
    return [row for row in csv.reader(io.StringIO(text, newline=''))]


# ---- registered classes --------------------------------------------------------------------------------------

class ClsA(Term):
    pass


class ClsB(Term):
    pass


metatab.terms.ClsA, metatab.terms.ClsB = ClsA, ClsB

CLASSES = {'ClsA': ClsA, 'ClsB': ClsB, '.ClsA': 'metatab.terms.ClsA', '.ClsB': 'metatab.terms.ClsB'}


READ_OPS = ('dict', 'rt', 'find', 'getprops', 'getsec', 'asver', 'pack', 'misc')


def applies(op, p):
    """The operation names terms and sections that the document has (MCEdit.Can)"""
    o, pth = op['op'], op.get('pth')
    if o == 'load':
        return True
    if pth:
        ts = p['secs'][pth[0] - 1]['t'] if pth[0] <= len(p['secs']) else []
        for i in pth[1:]:
            if i > len(ts):
                return False
            t = ts[i - 1]
            ts = t['k']
    if 's' in op and op['s'] > len(p['secs']):
        return False
    names = [x['n'].lower() for x in p['secs']]
    if o == 'newsec':
        return op['name'].lower() not in names
    return o != 'setattr'


class World(object):

    def __init__(self, history, scratch):
        self.h = history
        self.dir = scratch
        self.docs = {1: None, 2: None}
        self.parsers, self.shared = {}, {}
        self.trace = dict(id=history['id'], files={}, ps=[], dcs=[], ev=[], tags=history.get('tags', []))
        self._pidx, self._didx = {}, {}
        self.reg = {}
        self.lastp = {1: 0, 2: 0}

    # -- files

    def path(self, name):
        return os.path.join(self.dir, name)

    def write_files(self, files):
        for name, rows in files.items():
            self.trace['files'][name] = rows
            if name.startswith('!'):
                continue
            p = self.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if name.endswith('.txt'):
                with open(p, 'w', encoding='utf8', newline='') as f:
                    f.write(rows)
                continue
            with open(p, 'w', encoding='utf8', newline='') as f:
                w = csv.writer(f)
                for r in rows:
                    w.writerow([dec(c) for c in r])

    def write_zips(self, zips):
        for name, members in zips.items():
            with zipfile.ZipFile(self.path(name), 'w') as z:
                for member, rows in members.items():
                    self.trace['files'][name + '/' + member] = rows
                    f = io.StringIO(newline='')
                    csv.writer(f).writerows([dec(c) for c in r] for r in rows)
                    z.writestr(member, f.getvalue().encode('utf8'))

    def builtin(self, name):
        """Makes a declaration that comes with the library known to the specification"""
        import metatabdecl
        p = os.path.join(os.path.dirname(metatabdecl.__file__), name + '.csv')
        with open(p, encoding='utf8', newline='') as f:
            self.trace['files']['!' + name] = [['S' + c for c in r] for r in csv.reader(f)]

    # -- addressing

    def term(self, d, path):
        s = list(self.docs[d].sections.values())[path[0] - 1]
        if len(path) == 1:
            return s
        t = s.terms[path[1] - 1]
        for i in path[2:]:
            t = t.children[i - 1]
        return t

    def section(self, d, i):
        return list(self.docs[d].sections.values())[i - 1]

    def refs(self, d, terms):
        """Terms as paths in the current document. Declaration terms are left out."""
        m = {}
        for i, s in enumerate(self.docs[d].sections.values(), 1):
            m[id(s)] = [i]

            def walk(t, p):
                m[id(t)] = p
                for n, c in enumerate(t.children, 1):
                    walk(c, p + [n])

            for j, t in enumerate(s.terms, 1):
                walk(t, [i, j])

        out = []
        for t in terms:
            if t is None:
                out.append([0])
            elif id(t) in m:
                out.append(m[id(t)])
            elif getattr(t, 'file_type', None) == 'declare':
                continue
            else:
                out.append([0, 0])
        return out

    # -- recording

    def index(self, table, idx, obj):
        k = json.dumps(obj, sort_keys=True)
        if k not in idx:
            table.append(obj)
            idx[k] = len(table)
        return idx[k]

    def snapshot(self, d):
        if self.docs[d] is None:
            return 0
        p = projection(self.docs[d])
        p['dc'] = self.index(self.trace['dcs'], self._didx, decl_projection(self.docs[d]))
        return self.index(self.trace['ps'], self._pidx, p)

    def run(self, seconds=20):
        self.write_files(self.h.get('files', {}))
        self.write_zips(self.h.get('zips', {}))
        signal.signal(signal.SIGALRM, _alarm)
        saved = dict(TermParser.term_classes)
        try:
            for op in (self.h['ops'](self) if callable(self.h['ops']) else self.h['ops']):
                if op is None or (self.h.get('skip') and not applies(op, self.last(op['d']))):
                    continue
                ev = dict(op)
                ev['reg'] = dict(self.reg)
                self.partial = None
                signal.alarm(seconds)
                other = 3 - op.get('d', 1)
                watch = self.h.get('watch') and self.docs[other] is not None
                seen = self.look(other) if watch else ''
                try:
                    call = getattr(self, 'do_' + op['op'])
                    args = {k: v for k, v in op.items() if k not in ('op', 'tag')}
                    ev['r'] = call(**args)
                    ev['x'] = ''
                    if self.h.get('twice') and op['op'] in READ_OPS:
                        ev['same'] = call(**args) == ev['r']
                except Timeout:
                    ev['r'], ev['x'] = None, 'Timeout'
                except RecursionError:
                    ev['r'], ev['x'] = None, 'RecursionError'
                except Exception as e:
                    ev['r'], ev['x'] = getattr(self, 'partial', None), type(e).__name__
                    ev['xm'] = str(e)[:300]
                    ev['xt'] = self.where(e)
                finally:
                    signal.alarm(0)
                try:
                    signal.alarm(seconds)
                    ev['p'] = [self.snapshot(1), self.snapshot(2)]
                except (Timeout, RecursionError) as e:
                    ev['p'] = [0, 0]
                    ev['x'] = ev['x'] or ('Projection' + type(e).__name__)
                except Exception as e:
                    ev['p'] = [0, 0]
                    ev['x'] = ev['x'] or 'Projection' + type(e).__name__
                    ev['xm'] = str(e)[:300]
                finally:
                    signal.alarm(0)
                if ev['r'] is None:
                    ev['r'] = []
                ev.setdefault('xt', ['', '', ''])
                ev.setdefault('same', True)
                ev['seen'] = [seen, self.look(other) if watch and ev['x'] != 'Timeout' else seen]
                self.trace['ev'].append(ev)
                if ev['x'] and (op['op'].startswith('load') or ev['x'] in ('Timeout', 'RecursionError')
                                or ev['x'].startswith('Projection')):
                    break
        finally:
            TermParser.term_classes.clear()
            TermParser.term_classes.update(saved)
        return self.trace

    def look(self, d):
        """What a reader of document d sees, as one string"""
        try:
            doc = self.docs[d]
            return json.dumps([doc.as_csv(), doc.as_lines(), flat(doc.as_dict()), len(doc.find('*.*'))])
        except Exception as e:
            return type(e).__name__

    def last(self, d):
        """The last recorded projection of document d"""
        ev = self.trace['ev']
        n = ev[-1]['p'][d - 1] if ev else 0
        return self.trace['ps'][n - 1] if n else None

    def where(self, e):
        t = getattr(e, 'term', None)
        if t is None:
            return ['', '', '']
        return [str(t.record_term).lower(), s_(t.row), s_(t.file_name)]

    # ---- operations: loading ---------------------------------------------------------------------------------

    def source(self, src, rows=None, text=None, path=None):
        if src == 'rows':
            if self.h.get('share'):                 # equal rows are the same objects, or even the same generator
                key = json.dumps(rows)
                if key not in self.shared:
                    self.shared[key] = [[dec(c) for c in r] for r in rows]
                    self.shared[key + 'g'] = MetatabRowGenerator(self.shared[key])
                return self.shared[key + 'g'] if self.h['share'] == 'generator' else MetatabRowGenerator(self.shared[key])
            return MetatabRowGenerator([[dec(c) for c in r] for r in rows])
        if src == 'text':
            return TextRowGenerator(text)
        if path.endswith('.txt'):
            return 'metatab+file:' + self.path(path)
        return self.path(path)

    def do_load(self, d, src, rows=None, text=None, path=None, more=False):
        if src == 'file' and rows is not None:
            self.write_files({path: rows})
        ref = self.source(src, rows, text, path)
        if not more:
            self.docs[d] = None
            self.docs[d] = MetatabDoc(ref)
            return [str(e) for e in self.docs[d].errors]
        doc = self.docs[d]
        doc.load_terms(TermParser(ref, doc=doc))
        return [str(e) for e in doc.errors]

    def do_loadrows(self, d, rows):
        self.docs[d].load_rows(MetatabRowGenerator([[dec(c) for c in r] for r in rows]))
        return [str(e) for e in self.docs[d].errors]

    def do_refload(self, d, ref, via):
        """Reads the file that a reference names. $ is the directory of the history, which is also the current one"""
        from rowgenerators import parse_app_url
        self.docs[d] = None
        real = ref.replace('$', self.dir)
        cwd = os.getcwd()
        try:
            os.chdir(self.dir)
            if via == 'str':
                doc = MetatabDoc(real)
            elif via == 'url':
                doc = MetatabDoc(parse_app_url(real))
            elif via == 'target':
                doc = MetatabDoc(parse_app_url(real).get_resource().get_target())
            else:
                doc = parse_app_url(real).doc
            self.docs[d] = doc
            p = doc.path or ''
            short = lambda x: os.path.abspath(x).replace(self.dir, '$')
            return dict(dir=short(doc.doc_dir), path=short(p), time=os.path.exists(p) and abs(doc.mtime - os.path.getmtime(p)) < 1)
        finally:
            os.chdir(cwd)

    def do_refinfo(self, d, ref, name):
        from rowgenerators import parse_app_url
        cwd = os.getcwd()
        try:
            os.chdir(self.dir)
            u = parse_app_url(ref.replace('$', self.dir))
            meta = ref.startswith('metatab+')
            join = os.path.abspath(u.get_resource().join_target(name).fspath).replace(self.dir, '$') if meta else ''
            return dict(rows=[['S' + str(c) for c in r] for r in u.generator], exists=u.exists() if meta else True, join=join)
        finally:
            os.chdir(cwd)

    def do_new(self, d):
        self.docs[d] = MetatabDoc()

    def do_newdecl(self, d, decl):
        self.docs[d] = None
        self.docs[d] = MetatabDoc(decl=decl)

    def do_tokens(self, d, text, via='text'):
        if via == 'file':
            p = self.path('tok.txt')
            with open(p, 'w', encoding='utf8', newline='') as f:
                f.write(text)
            return [[str(e) for e in row] for row in TextRowGenerator(p)]
        if via == 'handle':
            return [[str(e) for e in row] for row in TextRowGenerator(io.StringIO(text, newline=''))]
        return [[str(e) for e in row] for row in TextRowGenerator(text)]

    def do_cmp05(self, d, rows1, rows2):
        return [sorted(flat(self.docs[1].as_dict())), sorted(flat(self.docs[2].as_dict()))]

    def do_cmp18(self, d):
        return []

    # ---- registered classes

    def do_reg(self, d, name, cls, via='doc'):
        (MetatabDoc if via == 'doc' else TermParser).register_term_class(name, CLASSES[cls])
        self.reg[name.lower()] = cls.lstrip('.')

    def do_unreg(self, d, name):
        TermParser.unregister_term_class(name)
        self.reg.pop(name.lower(), None)

    # ---- editing

    def props(self, props):
        return {k: dec(v) for k, v in props}

    def val(self, v):
        return False if v == '-' else dec(v)

    def do_newsec(self, d, name, cols):
        return self.refs(d, [self.docs[d].new_section(name, cols or None)])

    def do_gonsec(self, d, name, cols):
        return self.refs(d, [self.docs[d].get_or_new_section(name, cols or None)])

    def do_delsec(self, d, name):
        del self.docs[d][name]

    def do_sortsecs(self, d, order):
        self.docs[d].sort_sections(order)

    def do_addarg(self, d, s, name, front):
        self.section(d, s).add_arg(name, prepend=front)

    def do_rmarg(self, d, s, name):
        self.section(d, s).remove_arg(name)

    def do_newterm(self, d, s, name, v, props):
        return self.refs(d, [self.section(d, s).new_term(name, dec(v), **self.props(props))])

    def do_gonterm(self, d, s, name, v, props):
        return self.refs(d, [self.section(d, s).get_or_new_term(name, self.val(v), **self.props(props))])

    def do_setitem(self, d, s, name, v):
        self.section(d, s)[name] = dec(v)

    def do_addnew(self, d, s, name, v, via='add'):
        """Adds a term that was made on its own"""
        sec = self.section(d, s)
        t = Term(name, dec(v))
        {'add': sec.add_term, 'move': sec.move_term, 'set': sec.set_terms}[via](t)
        return self.refs(d, [t])

    def do_newchild(self, d, pth, name, v, props):
        return self.refs(d, [self.term(d, pth).new_child(name, dec(v), **self.props(props))])

    def do_gonchild(self, d, pth, name, v, props):
        return self.refs(d, [self.term(d, pth).get_or_new_child(name, self.val(v), **self.props(props))])

    def do_setprop(self, d, pth, name, v):
        self.term(d, pth)[name] = dec(v)

    def do_setattr(self, d, pth, name, v):
        setattr(self.term(d, pth), name, dec(v))

    def do_setvalue(self, d, pth, v):
        self.term(d, pth).value = dec(v)

    def do_rmterm(self, d, pth, via='sec'):
        t = self.term(d, pth)
        if via == 'sec':
            t.section.remove_term(t)
        else:
            self.docs[d].remove_term(t)

    def do_rmchild(self, d, pth):
        self.term(d, pth[:-1]).remove_child(self.term(d, pth))

    def do_delterms(self, d, s, name):
        del self.section(d, s)[name]

    def do_cleansec(self, d, s):
        self.section(d, s).clean()

    def do_sortterms(self, d, s, given, order):
        self.section(d, s).sort_by_term(order if given else None)

    def do_moveterm(self, d, pth, s, via='add'):
        sec, t = self.section(d, s), self.term(d, pth)
        {'add': sec.add_term, 'move': sec.move_term, 'set': sec.set_terms}[via](t)

    def do_setterms(self, d, s, items):
        self.section(d, s).set_terms(**{k: ((dec(v), self.props(props)) if props else dec(v)) for k, v, props in items})

    def do_cleanschema(self, d):
        self.docs[d].clean_unused_schema_terms()

    # ---- identity

    def do_ensureid(self, d):
        self.docs[d].ensure_identifier()

    def do_updver(self, d):
        return [enc(self.docs[d].update_version())]

    def do_updname(self, d, force, create, report, mod):
        return list(self.docs[d].update_name(force=force, create_term=create, report_unchanged=report, mod_version=self.val(mod)))

    def do_cleanse(self, d):
        self.docs[d].cleanse()

    def do_asver(self, d, mod):
        return [enc(self.docs[d].as_version(self.val(mod)))]

    # ---- reading

    def do_dict(self, d, what, pth, rep):
        o = self.docs[d] if what == 'doc' else self.section(d, pth[0]) if what == 'sec' else self.term(d, pth)
        return flat(o.as_dict(replace_value_names=rep))

    def do_rt(self, d, fmt):
        doc = self.docs[d]
        out = dict(rows=[], text='', x='', p=0, dict=[[], []])
        text = doc.as_csv() if fmt == 'csv' else doc.as_lines()
        out['text'] = text if fmt != 'csv' else ''
        if fmt == 'csv':
            out['rows'] = [['S' + c for c in r] for r in csv_rows(text)]
        try:
            back = self.read_text(text, fmt, 'w/rt')
            p = projection(back)
            p['dc'] = self.index(self.trace['dcs'], self._didx, decl_projection(back))
            out['p'] = self.index(self.trace['ps'], self._pidx, p)
            try:
                out['dict'] = [sorted(flat(doc.as_dict())), sorted(flat(back.as_dict()))]
            except TypeError:
                pass
        except Exception as e:
            out['x'] = type(e).__name__
        return out

    def read_text(self, text, fmt, base):
        name = base + ('.csv' if fmt == 'csv' else '.txt')
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf8', newline='') as f:
            f.write(text)
        return MetatabDoc(p if fmt == 'csv' else 'metatab+file:' + p)

    def do_find(self, d, how, names, multi, v, secs, secl, props, pth=None, via='doc'):
        if how == 'kids':
            t = self.term(d, pth)
            name = t.record_term.title() + '.' + names[0] if via == 'qual' else names[0]
            got = list(t.find(name, value=self.val(v)))
            first = t.find_first(name, value=self.val(v))
            if (got[0] if got else None) is not first:
                return [[0, 0, 1]]
            return self.refs(d, got)
        doc = self.docs[d]
        term = (tuple(names) if multi == 2 else list(names)) if multi else names[0]
        sec = None if not secs else (tuple(secs) if secl == 2 else list(secs)) if secl else secs[0]
        kw = self.props(props)
        if via == 'sec':
            s = doc[sec]
            if how == 'find':
                return self.refs(d, s.find(term, value=self.val(v)))
            if how == 'first':
                a, b = s.find_first(term, value=self.val(v)), s.get_term(term, value=self.val(v))
                return self.refs(d, [a]) if a is b else [[0, 0, 1]]
            if how == 'value':
                return [enc(s.find_first_value(term, value=self.val(v)))]
            if how == 'get':
                r = s[term]
                return self.refs(d, [r]) if r is not None else [[0, 0]]
        if how == 'find':
            return self.refs(d, doc.find(term, value=self.val(v), section=sec, **kw))
        if how == 'first':
            return self.refs(d, [doc.find_first(term, value=self.val(v), section=sec, **kw)])
        if how == 'value':
            return [enc(doc.find_first_value(term, value=self.val(v), section=sec, **kw))]
        if how == 'get':
            marker = object()
            r = doc.get(term, marker)
            return [[0, 0]] if r is marker else self.refs(d, [r])
        if how == 'getv':
            return [enc(doc.get_value(term, 'dflt', section=sec))]

    def do_getprops(self, d, pth, names):
        t = self.term(d, pth)

        def attempt(f):
            try:
                return enc(f())
            except (KeyError, AttributeError) as e:
                return '!' + type(e).__name__

        def got(n):
            x = t.get(n, 'dflt')
            return enc(x) if isinstance(x, str) else enc(x.value)

        out = [dict(item=attempt(lambda: t[n].value), attr=attempt(lambda: getattr(t, n)) if n == n.lower() else '',
                    get=got(n), getv=enc(t.get_value(n, 'dflt')), ffv=enc(t.find_first_value(n)), has=n in t) for n in names]
        return dict(n=out, value=enc(t.value), props=flat(t.props), arg_props=flat(t.arg_props), all_props=flat(t.all_props))

    def do_getsec(self, d, name):
        doc = self.docs[d]
        try:
            item = self.refs(d, [doc[name]])
        except KeyError:
            item = []
        try:
            both = self.refs(d, doc[[name, name]])
        except KeyError:
            both = []
        s = doc.get_section(name, None)
        return dict(item=item, both=both, get=self.refs(d, [s]), has=name in doc, iter=self.refs(d, list(doc)),
                    terms=[self.refs(d, list(s_)) for s_ in doc], names=list(s.property_names) if s is not None else [])

    def do_pack(self, d):
        from metatab.datapackage import convert_to_datapackage
        return flat(convert_to_datapackage(self.docs[d]))

    def do_misc(self, d):
        """Readers that only have to leave the document alone, and give the same answer again"""
        doc = self.docs[d]
        out = [str(t) for t in doc.all_terms] + [repr(t) for t in doc.all_terms]
        out += [json.dumps(r, default=str) for r in doc.rows] + [str(x) for x in doc.lines]
        out += [str(len(list(s))) + str(s) + repr(s) + s.as_lines() for s in doc]
        for t in doc.terms:
            out += [str(x) for x in t.descendents] + [str(t.is_terminal), t.join, t.qualified_term, t.file_ref(), str(t.term_is('root.*'))]
            out += [str(sorted(t.properties_ if False else t.props))]
        out += [str(doc.path), str(doc.ref), str(doc.mtime), str(doc.section_args('schema')), str(doc.get_section('nope', None))]
        out += [str(doc._has_semver() if hasattr(doc, '_has_semver') else '')]
        return out

    # ---- files

    def listing(self):
        out = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, self.dir)] = h.read()
        return out

    def do_write(self, d, how, ext, base='w/out', existing='', to='str'):
        """to: how the file is named; own: not at all, the document was loaded from it; none: not at all"""
        rel = base + ('.' + ext if ext else '')
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if to == 'own':
            pass
        elif existing == '@':               # as long as what is written, when the write does not change the document
            text = self.docs[d].as_csv() if ext == 'csv' else self.docs[d].as_lines()
            i = max([-1] + [i for i, c in enumerate(text) if c in 'aeiou'])
            with open(p, 'wb') as f:
                f.write((text[:i] + 'z' + text[i + 1:] if i >= 0 else text).encode('utf8'))
        elif existing:
            with open(p, 'w') as f:
                f.write(existing)
        elif os.path.exists(p):
            os.remove(p)
        before = self.listing()
        doc = self.docs[d]
        out = dict(before='', after='', others=True, rows=[], text='', x='', p=0)
        self.partial = out
        cwd = os.getcwd()
        try:
            os.chdir(os.path.dirname(p))
            f = {'write': doc.write, 'csv': doc.write_csv, 'lines': doc.write_lines}[how]
            if to in ('own', 'none'):
                f()
            else:
                f({'str': str, 'path': pathlib.Path, 'url': lambda x: 'file:' + x, 'rel': os.path.basename}[to](p))
        finally:
            os.chdir(cwd)
            after = self.listing()
            show = lambda b: '<none>' if b is None else b.decode('utf8')
            out['before'], out['after'] = show(before.get(rel)), show(after.get(rel))
            out['others'] = {k: v for k, v in before.items() if k != rel} == {k: v for k, v in after.items() if k != rel}
        text = open(p, encoding='utf8', newline='').read()
        fmt = 'csv' if ext == 'csv' else 'lines'
        if fmt == 'csv':
            out['rows'] = [['S' + c for c in r] for r in csv_rows(text)]
        else:
            out['text'] = text
        self.read_back(out, p if fmt == 'csv' else 'metatab+file:' + p)
        return out

    def read_back(self, out, ref):
        try:
            back = MetatabDoc(ref)
            p = projection(back)
            p['dc'] = self.index(self.trace['dcs'], self._didx, decl_projection(back))
            out['p'] = self.index(self.trace['ps'], self._pidx, p)
        except Exception as e:
            out['x'] = type(e).__name__

    def do_cli(self, d, mode, path, name='', inplace=False, sub=False):
        """Runs the command line program on a file in the scratch directory"""
        import metatab.cli, yaml
        from collections import OrderedDict
        argv = ['metatab']
        src = self.path(path)
        ref = 'metatab+file:' + src if path.endswith('.txt') else src
        flags = {'csv': ['-c'], 'lines': ['-l'], 'json': ['-j'], 'default': [], 'yaml': ['-y'], 'pretty': ['-p'], 'terms': ['-t'],
                 'decljson': ['-d', '-j'], 'declyaml': ['-d', '-y'], 'find': ['-f', name], 'create': ['-C'] + ([name] if name else [])}
        argv += flags[mode]
        if inplace:
            argv.append('-W')
        if mode == 'create' and not name:
            argv = ['metatab', src, '-C']
        else:
            argv.append(src)
        want = ''
        if mode in ('csv', 'default', 'lines', 'json') and os.path.exists(src):
            doc = MetatabDoc(ref)
            want = json.dumps(doc.as_dict(), indent=4) if mode == 'json' else doc.as_lines() if mode == 'lines' else doc.as_csv()
        before = self.listing()
        if sub:
            import subprocess
            pr = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.argv[0]="metatab"; import metatab.cli; metatab.cli.metatab()'] + argv[1:],
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir)
            code, text = pr.returncode, pr.stdout.decode('utf8')
        else:
            import contextlib, logging
            out, code = io.StringIO(), 0
            old = sys.argv
            hs = {n: list(logging.getLogger(n).handlers) for n in ('user', 'cli-errors')}
            try:
                sys.argv = argv
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        metatab.cli.metatab()
                    except SystemExit as e:
                        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                    except Exception:
                        if path in before:
                            raise
                        code = 1            # an error message of some kind about a file that is not there
            finally:
                sys.argv = old
                for n, h in hs.items():
                    logging.getLogger(n).handlers[:] = h
            text = out.getvalue()
        after = self.listing()
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        r = dict(code=code, out=text, files=changed, got='', want='', target='', existed=path in before, x='', p=0, template=[], flat=[], lines=[],
                 decl=decl_project({}, {}))
        if mode == 'find' or not r['existed'] and mode != 'create':
            return r
        if mode == 'create':
            if path in after and not r['existed']:
                import metatab.templates
                tp = os.path.join(os.path.dirname(metatab.templates.__file__), (name or 'metatab') + '.csv')
                r['template'] = [['S' + c for c in row] for row in csv_rows(open(tp, encoding='utf8', newline='').read())]
                for row in r['template']:
                    if row and row[0].lower() == 'sdeclare' and len(row) > 1:
                        self.builtin(row[1][1:])
                self.read_back(r, self.path(path))
            return r
        if mode == 'terms':
            r['lines'] = text.split('\n')
            return r
        ext = {'json': 'json', 'lines': 'txt', 'yaml': 'yaml'}.get(mode, 'csv')
        r['target'] = os.path.splitext(path)[0] + '.' + ext
        got = text
        if inplace:
            got = after.get(r['target'], b'<no file>').decode('utf8')
            if not changed and before.get(r['target']) == after.get(r['target']):
                r['files'] = [r['target']]      # written again with the same text
        elif want:
            want += '\n'
        try:
            data = None
            if mode in ('json', 'decljson'):
                data = json.loads(got)
            elif mode in ('yaml', 'declyaml'):
                data = yaml.safe_load(got)
            elif mode == 'pretty':
                data = eval(got, {'__builtins__': {}, 'OrderedDict': OrderedDict})
            if mode.startswith('decl'):
                r['decl'] = decl_project(data['terms'], data['sections'])
            elif data is not None:
                r['flat'] = flat(data)
        except Exception as e:
            r['x'] = 'Unreadable' + type(e).__name__
        if want:
            r['got'], r['want'] = got, want
        return r
