"""Names of Level-2 and ICGEM files: metadata, selection and de-duplication"""
import datetime
import importlib.util
import io
import os
import stat
import sys
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle, prog
from pbt.core import Check, raises, require, same

ASSUMPTIONS = ['names follow the Level-2 and ICGEM naming conventions',
    'the mission is given for selections of release 6 gravity fields']

T = gravtk.time
DSETS = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
# (centre, style): fields between the dates and the suffix
STYLES = {
    'CSR5': ('CSR', '{num}_UTCSR_0060_000{rel}', ('RL04', 'RL05')),
    'CSR6': ('CSR', '{mis}_UTCSR_{sol}_06{ver:02d}', ('RL06',)),
    'CSRL': ('CSR', '{mis}_UTCSR_EA01_0{lri}', ('RL06.3LRI',)),
    'GFZ4': ('GFZ', '{num}_EIGEN_G---_0004', ('RL04',)),
    'GFZ5': ('GFZ', '{num}_EIGEN_{con}_005a', ('RL05',)),
    'GFZ6': ('GFZ', '{mis}_GFZOP_{sol}_06{ver:02d}', ('RL06',)),
    'JPL5': ('JPL', '{num}_JPLEM_0001_000{rel}', ('RL04', 'RL05')),
    'JPL6': ('JPL', '{mis}_JPLEM_{sol}_06{ver:02d}', ('RL06',)),
    'CNES': ('CNES', '{num}_GRGS_C000{rel}_0005', ('RL03',)),
    'COSTG': ('COSTG', '{mis}_COSTG_BF01_01{ver:02d}', ('RL01',)),
    'JPLMSC': ('JPL', '{mis}_JPLMSC_CRI0_06{ver:02d}', ('RL06M',)),
}


def doy(d):
    return (d - datetime.date(d.year, 1, 1)).days + 1


spans = gen.spans


def dates(s):
    return [datetime.date.fromisoformat(v) for v in s]


@st.composite
def names(draw):
    style = draw(st.sampled_from(sorted(STYLES)))
    return dict(style=style, span=draw(spans()), dset=draw(st.sampled_from(DSETS + ['GSM']*4)),
        mis=draw(st.sampled_from(['GRAC', 'GRFO'])), num=draw(st.integers(1, 9999)),
        sol=draw(st.sampled_from(['BA01', 'BB01', 'BC01'])), rel=draw(st.integers(4, 5)),
        ver=draw(st.integers(0, 12)), con=draw(st.sampled_from(['G---', 'GK2-'])),
        lri=draw(st.sampled_from(['603', '604'])), sfx=draw(st.sampled_from(['', '.gz'])))


def text(n):
    a, b = dates(n['span'])
    sfx = n['sfx']
    if n['style'] == 'COSTG':
        sfx = '.gfc'
    elif n['style'] == 'CNES' and n['num'] % 2:
        sfx = '.txt' + sfx
    body = STYLES[n['style']][1].format(**dict(n, num=f"{n['num']:04d}"))
    return f"{n['dset']}-2_{a.year}{doy(a):03d}-{b.year}{doy(b):03d}_{body}{sfx}"


# ---------------------------------------------------------------- metadata
@st.composite
def s_meta(draw):
    return dict(name=draw(names()), where=draw(st.sampled_from(['', '/data/CSR/RL06/GSM/',
        '~/x-2_/'])), prefix=draw(st.sampled_from(['', '', 'kfilter_DDK3_'])))


def b_meta(case, ctx):
    n = case['name']
    a, b = dates(n['span'])
    f = case['prefix'] + text(n)
    start, end = T.parse_grace_file(case['where'] + f)
    same([int(v) for v in start], [a.year, doy(a)], f'start date of {f}')
    same([int(v) for v in end], [b.year, doy(b)], f'end date of {f}')
    parse = sys.modules['gravity_toolkit.read_GRACE_harmonics'].parse_file
    style = n['style']
    body = STYLES[style][1].format(**dict(n, num=f"{n['num']:04d}")).split('_')
    rel = {'CSR6': f"06{n['ver']:02d}", 'GFZ6': f"06{n['ver']:02d}", 'JPL6':
        f"06{n['ver']:02d}", 'JPLMSC': f"06{n['ver']:02d}", 'COSTG': f"01{n['ver']:02d}",
        'GFZ5': '005', 'GFZ4': '0004', 'CSRL': '0' + n['lri'], 'CNES': '0005'}.get(style,
        f"000{n['rel']}")
    stream = io.BytesIO(b'')
    stream.filename = f
    for arg in (case['where'] + f, stream):
        out = parse(arg)
        same(list(out[:9]), [case['prefix'] + n['dset'], f'{a.year}', f'{doy(a):03d}',
            f'{b.year}', f'{doy(b):03d}', body[0], body[1], '_'.join(body[2:-1]), rel],
            f'fields of {f}')
        sfx = f[f.rindex('_'):]
        require(out[10] == ('.' + sfx.split('.')[-1] if '.' in sfx else ''),
            f'suffix of {f}: {out[10]}')
    ctx.nontrivial(a.year != b.year or style not in ('CSR6', 'JPL6'))
    ctx.label(style)


@st.composite
def s_gfc(draw):
    kind = draw(st.sampled_from(['itsg', 'model', 'aod', 'swarm', 'swarm model']))
    return dict(kind=kind, year=draw(st.integers(2002, 2030)), month=draw(st.integers(1, 12)),
        span=draw(spans()), trunc=draw(st.sampled_from([60, 96, 120, 180])),
        prod=draw(st.integers(0, 3)), dset=draw(st.sampled_from(DSETS[:4])),
        clock=[draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))],
        sfx=draw(st.sampled_from(['.gfc', '.ZIP'])), zero=draw(st.booleans()))


def gfc_name(case):
    y, m, tr = case['year'], case['month'], case['trunc']
    k = case['prod']
    if case['kind'] == 'itsg':
        p = ['Grace2014', 'Grace2016', 'Grace2018', 'Grace_operational'][k]
        return f'ITSG-{p}_n{tr}_{y}-{m:02d}.gfc', 'GRAZ', 'GSM'
    if case['kind'] in ('model', 'aod'):
        p = ['atmosphere', 'ocean', 'oceanBottomPressure', 'dealiasing'][k]
        h = 'model' if case['kind'] == 'model' else 'AOD1B_RL06'
        return f'{h}_{p}_n{tr}_{y}-{m:02d}.gfc', 'GRAZ', case['dset']
    if case['kind'] == 'swarm':
        a, b = dates(case['span'])
        c = '{:02d}{:02d}{:02d}'.format(*(case['clock'] if not case['zero'] else [0, 0, 0]))
        e = '{:02d}{:02d}{:02d}'.format(*(case['clock'] if not case['zero'] else
            [23, 59, 59]))
        return (f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T{c}_{b:%Y%m%d}T{e}_0101{case["sfx"]}',
            'Swarm', 'GSM')
    return f'{case["dset"]}_Swarm_{tr}_{m:02d}_{y}{case["sfx"]}', 'Swarm', case['dset']


def gfc_dates(case):
    y, m = case['year'], case['month']
    if case['kind'] == 'swarm':
        a, b = dates(case['span'])
        c = case['clock']
        s, e = (([0]*3, [23, 59, 59]) if case['zero'] else (c, c))
        return [a.year, a.month, a.day] + list(s), [b.year, b.month, b.day] + list(e)
    return [y, m, 1, 0, 0, 0], [y, m, oracle.month_lengths(y)[m - 1], 23, 59, 59]


def b_gfc(case, ctx):
    f, proc, dset = gfc_name(case)
    for p in ('', '/some/where_2010-01/'):
        s, e = T.parse_gfc_file(p + f, proc, dset)
        ws, we = gfc_dates(case)
        same([int(v) for v in s], ws, f'start of {f}')
        same([int(v) for v in e], we, f'end of {f}')
    ctx.nontrivial(True)
    ctx.label(case['kind'])


# ---------------------------------------------------------------- selection
@st.composite
def s_select(draw):
    n = draw(names())
    # names that differ in one field from the selected one
    others = [dict(n, **{k: draw(names())[k]}) for k in
        draw(st.lists(st.sampled_from(['dset', 'mis', 'sol', 'ver', 'rel', 'style', 'con',
        'num', 'lri', 'span', 'sfx']), min_size=1, max_size=6))]
    return dict(names=[n] + others + [draw(names())], mission=draw(st.sampled_from(
        [None, 'GRAC', 'GRFO'])), version=draw(st.sampled_from([None, 'int', 'str'])))


def selected(n, proc, drel, dset, mission, sol, ver):
    """does the selection contain the name"""
    s = n['style']
    if n['dset'] != dset:
        return False
    centre, _, _ = STYLES[s]
    if s in ('COSTG', 'JPLMSC'):
        own = False
    if dset == 'GSM' and proc in ('CSR', 'GFZ', 'JPL') and drel == 'RL06':
        return (s == f'{proc}6' and n['mis'] == mission and n['sol'] == sol
            and (ver is None or n['ver'] == ver))
    if dset == 'GSM' and proc == 'CSR' and drel in ('RL04', 'RL05'):
        return s == 'CSR5' and n['rel'] == int(drel[2:])
    if dset == 'GSM' and proc == 'CSR' and drel.endswith('LRI'):
        return s == 'CSRL' and n['mis'] == mission and n['lri'] == '603'
    if dset == 'GSM' and proc == 'GFZ' and drel == 'RL04':
        return s == 'GFZ4'
    if dset == 'GSM' and proc == 'GFZ' and drel == 'RL05':
        return s == 'GFZ5'
    if proc == 'JPL' and drel in ('RL04', 'RL05'):
        return s == 'JPL5' and n['rel'] == int(drel[2:])
    if proc == 'CNES':
        return s == 'CNES'
    # dealiasing products of a mission: names of older releases have none
    if mission is not None and drel not in ('RL04', 'RL05'):
        return n['mis'] == mission and '{mis}' in STYLES[s][1] and s != 'COSTG'
    return s != 'COSTG' and not (s == 'CNES' and n['num'] % 2)


def b_select(case, ctx):
    rxf = gravtk.utilities.compile_regex_pattern
    n = case['names'][0]
    proc, _, rels = STYLES[n['style']]
    if n['style'] in ('COSTG', 'JPLMSC'):
        require(raises(lambda: rxf('COSTG', 'RL01', 'GSM'), ValueError),
            'unknown centre is not an error')
        require(raises(lambda: rxf('CSR', 'RL06', 'GSX'), ValueError),
            'unknown product is not an error')
        require(raises(lambda: rxf('CSR', 'RL06', 'GSM', mission='GRACE'), ValueError),
            'unknown mission is not an error')
        return
    drel = rels[0] if len(rels) == 1 else f'RL0{n["rel"]}'
    mission = case['mission']
    kw = {}
    if n['dset'] == 'GSM' and (drel == 'RL06' or drel.endswith('LRI')):
        mission = n['mis']
        kw['solution'] = n['sol']
    ver = None
    if n['dset'] == 'GSM' and drel == 'RL06' and case['version']:
        ver = n['ver']
        kw['version'] = ver if case['version'] == 'int' else str(ver)
    rx = rxf(proc, drel, n['dset'], mission=mission, **kw)
    hits = 0
    for q in case['names']:
        f = text(q)
        want = selected(q, proc, drel, n['dset'], mission, n['sol'], ver)
        got = bool(rx.match(f))
        require(got == want, f'{proc} {drel} {n["dset"]} {mission} {kw}: {f} is '
            f'{"not " if want else ""}selected')
        require(not rx.match(f + '.tmp') and not rx.match('x' + f),
            f'{proc} {drel}: names around {f} are selected')
        hits += want
    if n['dset'] == 'GSM' and drel == 'RL06' and ver is None and n['sol'] == 'BA01':
        r2 = rxf(proc, drel, n['dset'], mission=mission)
        same([bool(r2.match(text(q))) for q in case['names']],
            [bool(rx.match(text(q))) for q in case['names']], 'default solution')
    ctx.nontrivial(0 < hits < len(case['names']))
    ctx.label(n['style'], 'none' if not hits else 'some')


# ------------------------------------------------------------ de-duplication
@st.composite
def s_reduce(draw):
    style = draw(st.sampled_from(['CSR6', 'GFZ6', 'JPL6', 'COSTG', 'GFZ5', 'JPL5', 'CSR5',
        'JPLMSC']))
    k = draw(st.integers(1, 8))
    return dict(style=style, spans=draw(st.lists(spans(), min_size=k, max_size=k)),
        vers=[draw(st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True))
        for _ in range(k)], order=draw(gen.seeds), sfx=draw(st.sampled_from(['', '.gz'])),
        mis=draw(st.sampled_from(['GRAC', 'GRFO'])), dset=draw(st.sampled_from(DSETS)),
        where=draw(st.sampled_from(['', '/data/x/'])), twice=draw(st.booleans()))


def b_reduce(case, ctx):
    style = case['style']
    best, every, seen = {}, [], set()
    for s, vv in zip(case['spans'], case['vers']):
        if tuple(s) in seen:
            continue
        seen.add(tuple(s))
        plain = '{ver' not in STYLES[style][1]
        vv = vv[:1] if plain else vv
        for v in vv:
            n = dict(style=style, span=s, dset=case['dset'], mis=case['mis'], num=31,
                sol='BA01', rel=5, ver=v, con='G---', lri='603', sfx=case['sfx'])
            every.append(case['where'] + text(n))
            if v == max(vv):
                a, b = dates(s)
                best[a.year, doy(a), b.year, doy(b)] = every[-1]
        if case['twice'] and plain:
            every.append(every[-1])
    p = gen.rng(case['order']).permutation(len(every))
    arg = [every[i] for i in p]
    before = list(arg)
    out = T.reduce_by_date(arg)
    same(arg, before, 'input list')
    same(list(out), [best[k] for k in sorted(best)], f'newest {style} files of each date')
    same(T.reduce_by_date(out), list(out), 'reduced list reduced again')
    same(T.reduce_by_date([]), [], 'empty list')
    ctx.nontrivial(len(every) > len(best) > 1)
    ctx.label(style)


# -------------------------------------------------- index of a local archive
def program(name):
    root = os.path.dirname(os.path.dirname(gravtk.__file__))
    spec = importlib.util.spec_from_file_location(name, f'{root}/scripts/{name}.py')
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


@st.composite
def s_index(draw):
    return dict(proc=draw(st.sampled_from(['CSR', 'GFZ', 'JPL'])),
        rel=draw(st.sampled_from(['RL06', 'RL05'])), dset='GSM',
        names=draw(st.lists(names(), min_size=0, max_size=6)),
        own=draw(st.lists(st.tuples(spans(), st.integers(0, 5), st.sampled_from(
        ['GRAC', 'GRFO'])), min_size=1, max_size=8)), order=draw(gen.seeds), cli=draw(st.booleans()))


def b_index(case, ctx):
    proc, rel = case['proc'], case['rel']
    style = proc + rel[-1]
    d = ctx.tmp/proc/rel/'GSM'
    d.mkdir(parents=True)
    all_names = list(case['names'])
    for s, v, m in case['own']:
        all_names.append(dict(style=style, span=s, dset='GSM', mis=m, num=30, sol='BA01',
            rel=5, ver=v, con='G---', lri='603', sfx=''))
    files = {text(n): n for n in all_names}
    best = {}
    for f, n in files.items():
        (d/f).write_text('')
        if not selected(n, proc, rel, 'GSM', n['mis'], 'BA01', None):
            continue
        a, b = dates(n['span'])
        best.setdefault((a.year, doy(a), b.year, doy(b)), []).append((n['ver'], f))
    (d/'README.txt').write_text('x')
    mod = program('make_grace_index')
    # one date with several equally recent versions has several answers
    pick = {}
    for k, v in best.items():
        top = max(x for x, _ in v)
        pick[k] = {f for x, f in v if rel != 'RL06' or x == top}
    if case['cli']:
        prog.run('make_grace_index', '-D', ctx.tmp, '-c', proc, 'JPL', '-r', rel, '-p', 'gsm',
            'GAD', '-v', r'\d+', r'\d+', '-M', '644')
    else:
        mod.make_grace_index(ctx.tmp, PROC=[proc, 'CNES'], DREL=[rel], DSET=['GSM', 'GAD'],
            VERSION=[r'\d+', r'\d+'], MODE=0o644)
    out = (d/'index.txt').read_text().splitlines()
    same(len(out), len(pick), f'{proc} {rel}: files in the index {out}')
    for f, k in zip(out, sorted(pick)):
        require(f in pick[k], f'{proc} {rel}: {f} in the index, expected {pick[k]}')
    same(stat.S_IMODE((d/'index.txt').stat().st_mode), 0o644, 'permissions')
    ctx.nontrivial(len(files) > len(out) > 0)
    ctx.label(style)


CHECKS = [
    Check('metadata', s_meta, b_meta, quick=500, thorough=8000,
        rule='period across years or uncommon naming style'),
    Check('icgem_metadata', s_gfc, b_gfc, quick=300, thorough=5000, rule='every case'),
    Check('selection', s_select, b_select, quick=800, thorough=12000,
        rule='some of the names are selected and some are not'),
    Check('newest', s_reduce, b_reduce, quick=500, thorough=8000,
        rule='several dates, some with several versions'),
    Check('archive_index', s_index, b_index, quick=200, thorough=3000,
        rule='some of the files are not in the index'),
]
