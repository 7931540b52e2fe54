#!/usr/bin/env python3
"""nonvacuity.py [N...]: plants mistakes in copies of the specification and shows which invariant of the models notices.

Not part of any check; the table that it prints is in DESIGN.md."""
import concurrent.futures as cf, json, os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
import check, models

MISTAKES = [
    ('C01', 'MParse', 'a comment sign after blanks is not seen', r'Ch(Strip(Txt(row[1])), 1) = "#"', r'Ch(Txt(row[1]), 1) = "#"'),
    ('C01', 'MParse', 'the value is not trimmed', r'val == IF Len(row) > 1 THEN CellVal(row[2])', r'val == IF Len(row) > 1 THEN row[2]'),
    ('C02', 'MParse', 'rows with an elided parent become parents', r'THEN IF ps.lp = ROOT THEN AttachRoot(ps, t) ELSE Attach(ps, t, ps.ltm[ps.lp])',
     r'THEN LET z == IF ps.lp = ROOT THEN AttachRoot(ps, t) ELSE Attach(ps, t, ps.ltm[ps.lp]) IN [z EXCEPT !.ps = [@ EXCEPT !.ltm = Put(@, t.r, z.path)]]'),
    ('C02', 'MParse', 'the current parent outlives its section', r'!.cur = i, !.lp = ROOT,', r'!.cur = i,'),
    ('C02', 'MParse', 'the first term of a name stays the parent', r'!.ltm = Put(@, t.r, a.path)]', r'!.ltm = IF t.r \in DOMAIN @ THEN @ ELSE Put(@, t.r, a.path)]'),
    ('C03', 'MParse', 'a repeated section row makes a new section', r'p1 == IF i # 0 THEN ps ELSE [ps', r'p1 == IF i = 1 THEN ps ELSE [ps'),
    ('C03', 'MDoc', 'section names are compared with their case', r'Lower(s.n) = Lower(name))', r's.n = name)'),
    ('C04', 'MParse', 'a cell beyond the columns gets the last column', r'NatOf(r) < Len(pm) THEN pm[NatOf(r) + 1] ELSE r', r'pm # <<>> THEN pm[IF NatOf(r) < Len(pm) THEN NatOf(r) + 1 ELSE Len(pm)] ELSE r'),
    ('C04', 'MParse', 'the header of a section is forgotten when the section is left', r'!.pm = Munge(PropNames(ps.S[i]))', r'!.pm = Munge(ps.S[i].a)'),
    ('C06', 'MParse', 'after an include the section is the one the file ended in', r'IF p2.x # "" THEN p2 ELSE EnterSec(p3, ps.gs)', r'p2'),
    ('C06', 'MParse', 'names in an included file are relative to the first file', r'RelPath(path, StripSlash', r'RelPath("w/main.csv", StripSlash'),
    ('C07', 'MParse', 'children are inherited without their value names', r'[base EXCEPT !.inh = ""]', r'[base EXCEPT !.inh = "", !.tvn = ""]'),
    ('C07', 'MParse', 'synonyms are not replaced', r'n2 == IF sy # "" THEN SplitName(sy) ELSE nm', r'n2 == nm'),
    ('C08', 'MDict', 'the last of several children wins', r'ELSE DPut(q, key, ListN(<<q[i][2], n>>))', r'ELSE DPut(q, key, n)'),
    ('C08', 'MDict', 'joined values have no space', r'JoinText(q, key, n, " ")', r'JoinText(q, key, n, "")'),
    ('C11', 'MLines', 'every pipe separates', r'(j = 1 \/ Ch(s, j - 1) # "\\")', r'TRUE'),
    ('C11', 'MLines', 'three equals signs make a section', r'n >= 4', r'n >= 3'),
    ('C11', 'MLines', 'text is split at the last colon', r'c == Find1(line, ":")', r'c == FindLast(line, ":", Len(line))'),
    ('C12', 'MFind', 'only top level terms are searched', r'IF StartsWith(Qual(name), "root.") THEN', r'IF TRUE THEN'),
    ('C12', 'MFind', 'a star as the name matches nothing', r'n.r = "*" /\ n.p = p', r'FALSE'),
    ('C12', 'MFind', 'sections are compared with their case', r'Lower(secs[i]) = Lower(S[pth[1]].n)', r'secs[i] = S[pth[1]].n'),
    ('C13', 'MEdit', 'a moved term stays in its old section', r'![pth[1]].t = RemoveIdx(@, pth[2]), ![i].t = Append(@, t)', r'![i].t = Append(@, t)'),
    ('C13', 'MEdit', 'removing a term leaves a gap in the order', r'RmTerm(D, pth)  == WithSecs(D, Rerank(', r'RmTerm(D, pth)  == WithSecs(D, ('),
    ('C13', 'MEdit', 'an existing child is made again', r'IN  IF i = 0 THEN [t EXCEPT !.k = Append(@, NewKid(D, t.r, name, IF v', r'IN  IF TRUE THEN [t EXCEPT !.k = Append(@, NewKid(D, t.r, name, IF v'),
    ('C14', 'MEdit', 'setting a property to nothing empties it', r'ELSE IF v = "N" THEN (IF i = 0 THEN D ELSE SetAt(D, pth, RmKidT(t, i)))', r''),
    ('C14', 'MFind', 'the value name is not the value', r'IsOwn(t, name) == Lower(name) \in {Lower(t.tv), "value"}', r'IsOwn(t, name) == Lower(name) \in {"value"}'),
    ('C15', 'MEdit', 'sections that are not named come first', r'all == ix \o rest', r'all == rest \o ix'),
    ('C15', 'MEdit', 'a column that is there is added again', r'q1 == IF HasArg(q, a) THEN q ELSE', r'q1 =='),
    ('C15', 'MEdit', 'equal names are sorted backwards', r'LAMBDA e : ~Less(Join(t), Join(e))', r'LAMBDA e : Less(Join(e), Join(t))'),
    ('C16', 'MIdent', 'the version comes first in the name', r'parts == Concat([i \in 1..6 |-> Part(FirstVal(D0, IdentityNames[i], InRoot))] \o <<Part(u1.v)>>)', r'parts == Concat(<<Part(u1.v)>> \o [i \in 1..6 |-> Part(FirstVal(D0, IdentityNames[i], InRoot))])'),
    ('C16', 'MIdent', 'an identifier is replaced', r'IF Falsy(SGet(D1.secs, p).v) THEN SetValue', r'IF TRUE THEN SetValue'),
    ('C17', 'MIdent', 'arithmetic adds where it should subtract', r'ELSE WholeOf(mv) - k', r'ELSE WholeOf(mv) + k'),
    ('C17', 'MIdent', 'missing parts of a version are left empty', r'NewKid(D, t.r, r, "S0", "Term")', r'NewKid(D, t.r, r, "S", "Term")'),
    ('C24', 'MPack', 'a table is preferred to the name', r'i == IF n # 0 THEN n ELSE IF DIdx(a, "table") = 0 THEN 0 ELSE SchemaOf(q, At(a, "table"))', r'i == IF DIdx(a, "table") = 0 THEN n ELSE SchemaOf(q, At(a, "table"))'),
    ('C26', 'MEdit', 'empty properties stay', r'SelectSeq(@, LAMBDA c : Filled(c))', r'@'),
    ('C26', 'MEdit', 'empty values count as used', r'{x \in SetOf(s.t[p[1]].k[p[2]].k) : Filled(x)}', r'SetOf(s.t[p[1]].k[p[2]].k)'),
    ('C28', 'MRef', 'steps upward are ignored', r'RefParts(ref) == NormParts(<<>>, Split(RefPath(ref), "/"))', r'RefParts(ref) == SelectSeq(NormParts(<<>>, Split(RefPath(ref), "/")), LAMBDA e : e # "w")'),
    ('C28', 'MRef', 'a directory does not stand for its metadata.csv', r'IF IsMeta(ref) /\ e \notin FileExts THEN', r'IF FALSE THEN'),
    ('C22', 'MParse', 'the row of an include error is lost',  'THEN Fail(ps, "IncludeError", nm.r, rn, f)\n        ELSE IF', 'THEN Fail(ps, "IncludeError", nm.r, "1", f)\n        ELSE IF'),
    ('C22', 'MParse', 'a missing include is passed over',  'THEN Fail(ps, "IncludeError", nm.r, rn, f)\n        ELSE IF', 'THEN ps\n        ELSE IF'),
]


def one(m):
    prop, mod, what, old, new = m
    d = tempfile.mkdtemp(prefix='verif-nv-')
    try:
        spec = os.path.join(d, 'spec')
        shutil.copytree(os.path.join(HERE, 'spec'), spec)
        p = os.path.join(spec, mod + '.tla')
        s = open(p, encoding='utf8').read()
        if not old or s.count(old) != 1:
            return m, 'the mistake cannot be planted (%d places)' % s.count(old)
        open(p, 'w', encoding='utf8').write(s.replace(old, new))
        seen = []
        check.SPEC = spec
        for job in models.jobs(prop, False):
            base = os.path.join(d, job['name'])
            with open(base + '.cfg', 'w') as f:
                f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in job['invariants'])
                        + ''.join('PROPERTY %s\n' % i for i in job.get('properties', [])) + ('VIEW %s\n' % job['view'] if 'view' in job else ''))
            json.dump(job['menu'], open(base + '.json', 'w'))
            out = check.tlc(job['module'] + '.tla', base + '.cfg', d, dict(VMENU=base + '.json', VLEN=str(job['len'])), heap='4g', timeout=600, workers=2)
            r = re.findall(r'Error: (?:Invariant|Action property|Property) (\w+) .*violated|Error: (.*)', out)
            r = [a or b for a, b in r]
            seen.append('%s: %s' % (job['name'], r[0] if r else 'nothing'))
        return m, '; '.join(seen)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    todo = [MISTAKES[int(a)] for a in sys.argv[1:]] or [m for m in MISTAKES if m[3]]
    with cf.ProcessPoolExecutor(3) as ex:
        for m, r in ex.map(one, todo):
            print('| %s | %s: %s | %s |' % (m[0], m[1], m[2], r), flush=True)


main()
