"""One function per property."""
import json
import os
import subprocess
from vlib import CheckError, REPO, VERIF

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check('W02')
def words(c):
    c.model('WordBreakMC', 'WordBreakMC.cfg' if c.thorough else 'WordBreakMC3.cfg')
    b = c.build('wb')
    obs = c.run(b, {'EXH': 4, 'RND': 150000} if c.thorough else {'EXH': 3, 'RND': 30000})
    c.judge('WordBreakTrace', obs, min_obs=30000)


@check('G01')
def graphemes(c):
    c.model('GraphemeMC', 'GraphemeMC.cfg' if c.thorough else 'GraphemeMC4.cfg')
    b = c.build('gr')
    obs = c.run(b, {'EXH': 5, 'RND': 200000} if c.thorough else {'EXH': 4, 'RND': 30000})
    c.judge('GraphemeTrace', obs, min_obs=30000)


# ---- bidi ---------------------------------------------------------------------------------
def uax9(c):
    c.model('UAX9MC', 'UAX9MC.cfg' if c.thorough else 'UAX9MC3.cfg')
    c.model('UAX9MC', 'UAX9MCdepth.cfg' if c.thorough else 'UAX9MCdepth4.cfg')
    if c.thorough:
        c.model('UAX9MC', 'UAX9MCiso.cfg')


@check('B01')
def bidi_cover(c):
    b = c.build('bidi')
    obs = c.run(b, dict(MODE='cover', **({'EXH': 3, 'PART': 5, 'RND': 100000, 'LONG': 100, 'BLOWN': 1000} if c.thorough else
                                         {'EXH': 3, 'PART': 4, 'RND': 15000, 'LONG': 30})))
    c.judge('BidiCoverTrace', obs, min_obs=30000)


@check('B02')
def bidi_levels(c):
    uax9(c)
    b = c.build('bidi')
    obs = c.run(b, dict(MODE='levels', SWEEP=1, **({'EXH': 4, 'PART': 5, 'RND': 450000, 'DEEP': 300, 'VAST': 250, 'BLOWN': 1000} if c.thorough else
                                                   {'EXH': 3, 'PART': 4, 'RND': 70000, 'DEEP': 20})))
    c.judge('UAX9Trace', obs, min_obs=30000, env={'NEEDD': 1, 'NEEDV': 0})


@check('B03')
def bidi_order(c):
    uax9(c)
    b = c.build('bidi')
    obs = c.run(b, dict(MODE='order', **({'EXH': 4, 'PART': 5, 'RND': 400000, 'DEEP': 150, 'BLOWN': 1000} if c.thorough else
                                         {'EXH': 3, 'PART': 4, 'RND': 60000, 'DEEP': 12})))
    c.judge('UAX9Trace', obs, min_obs=30000, env={'NEEDD': 0, 'NEEDV': 1})


@check('B04')
def bidi_ops(c):
    b = c.build('bidi')
    obs = c.run(b, dict(MODE='ops', **({'EXH': 3, 'PART': 5, 'RND': 40000, 'OPS': 20, 'BLOWN': 100} if c.thorough else
                                       {'EXH': 2, 'PART': 4, 'RND': 8000, 'OPS': 8})))
    c.judge('BidiOpsTrace', obs, min_obs=10000)


@check('B05')
def bidi_markup(c):
    b = c.build('bidi')
    obs = c.run(b, dict(MODE='markup', **({'EXH': 3, 'PART': 5, 'RND': 100000, 'BLOWN': 1000} if c.thorough else
                                          {'EXH': 3, 'PART': 4, 'RND': 20000})))
    c.judge('UAX9Trace', obs, min_obs=10000, env={'NEEDD': 1, 'NEEDV': 1})


@check('B06')
def bidi_parallel(c):
    c.model('BidiPipe', 'BidiPipe.cfg' if c.thorough else 'BidiPipe4.cfg')
    b = c.build('bidi', race=True)
    # the first use sets up shared tables: several processes
    obs = [c.run(b, dict(MODE='par', ROUNDS=60 if c.thorough else 25, WIDTH=16, SLOW=first % 4 if first % 2 else 0,
                         VERIF_SEED=c.seed * 100 + first), mem_gb=0)
           for first in range(40 if c.thorough else 8)]
    # one after the other: nobody is at work when a paragraph is resolved
    obs.append(c.run(c.build('bidi'), dict(MODE='alone', ROUNDS=30000 if c.thorough else 3000)))
    obs = c.cat(obs)
    c.judge('UAX9Trace', obs, min_obs=1000, env={'NEEDD': 1, 'NEEDV': 1})


# ---- segmenter ----------------------------------------------------------------------------
def segmenter(c, mode, quick, thorough):
    b = c.build('seg')
    r = c.dir + '/big.ndjson'
    par = dict(MODE=mode, OBS2=r, **(thorough if c.thorough else quick))
    obs = c.run(b, par)
    c.judge('SegmenterTrace', obs, min_obs=quick['RND'])
    if 'HUGE' in par:
        c.judge('SegBigTrace', r, min_obs=par['HUGE'])


@check('S01')
def lossless(c):
    c.model('SegRing', 'SegRing.cfg' if c.thorough else 'SegRing4.cfg')
    segmenter(c, 'lossless', {'RND': 20000, 'BIG': 60, 'HUGE': 60}, {'RND': 200000, 'BIG': 800, 'HUGE': 600})


@check('S02')
def placement(c):
    c.model('SegmenterMC', 'SegmenterMC.cfg' if c.thorough else 'SegmenterMCq.cfg')
    segmenter(c, 'place', {'RND': 20000, 'BIG': 40}, {'RND': 200000, 'BIG': 800})


@check('S03')
def bounded(c):
    c.model('SegmenterMC', 'SegmenterMC2.cfg' if c.thorough else 'SegmenterMCq.cfg')
    segmenter(c, 'bound', {'RND': 20000, 'BIG': 40}, {'RND': 200000, 'BIG': 800})


@check('S04')
def reuse(c):
    c.model('SegRing', 'SegRing.cfg' if c.thorough else 'SegRing4.cfg')
    segmenter(c, 'reuse', {'RND': 8000, 'BIG': 40, 'HUGE': 60}, {'RND': 80000, 'BIG': 800, 'HUGE': 600})


@check('W01')
def simple_words(c):
    c.model('SimpleWordMC', 'SimpleWordMC9.cfg' if c.thorough else 'SimpleWordMC.cfg')
    b = c.build('sw')
    r = c.dir + '/ranges.ndjson'
    obs = c.run(b, dict(OBS2=r, **({'EXH': 15, 'RND': 60000} if c.thorough else {'EXH': 11, 'RND': 10000})))
    c.judge('SimpleWordTrace', obs, min_obs=10000)
    c.ranges(r, 'ws.txt', False)


# ---- publisher and recognizers -------------------------------------------------------------
@check('N01')
def publisher(c):
    c.model('PublisherQ', 'PublisherQ.cfg' if c.thorough else 'PublisherQ3.cfg')
    b = c.build('pub')
    obs = c.cat([c.run(b, dict(MODE='pub', RND=80000 if c.thorough else 8000)),
                 c.run(b, dict(MODE='queue', RND=80000 if c.thorough else 6000))])
    c.judge('PublisherTrace', obs, min_obs=14000)


@check('N02')
def recognizers(c):
    c.model('RecPool', 'RecPool.cfg')
    c.model('RecPool', 'RecPool2.cfg')
    b = c.build('pub')
    obs = c.run(b, dict(MODE='rec', RND=60000 if c.thorough else 10000))
    r = c.build('pub', race=True)
    obs = c.cat([obs, c.run(r, dict(MODE='par', WIDTH=16, RND=4000 if c.thorough else 400), mem_gb=0)])
    c.judge('RecognizerTrace', obs, min_obs=10000)
    c.judge('PublisherTrace', c.run(b, dict(MODE='pub', RND=40000 if c.thorough else 4000)), min_obs=4000)


# ---- table of line break classes ----------------------------------------------------------
def line_classes(c):
    """The table of line break classes is not part of the repository: has it generated by the repository's generator."""
    home = os.path.join(c.dir, 'lb')
    os.makedirs(os.path.join(home, 'etc'))
    with open(os.path.join(VERIF, 'data', 'lb.txt')) as f, open(os.path.join(home, 'etc', 'LineBreak.txt'), 'w') as g:
        for l in f:
            lo, hi, k = l.split()
            g.write('%04X..%04X;%s\n' % (int(lo), int(hi), k))
    gen = c.tool('uax14/internal/generator')
    p = subprocess.run([gen], cwd=home, env=dict(os.environ, GOPATH=home), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=300)
    table = os.path.join(home, 'uax14classes.go')
    if p.returncode != 0 or not os.path.exists(table):
        raise CheckError('generator of line break classes failed: ' + p.stderr[-1000:])
    return {os.path.join(REPO, 'uax14', 'uax14classes.go'): table}


# ---- concurrency of segmenters --------------------------------------------------------------
@check('S05')
def independent(c):
    c.model('SetupMC')
    c.model('RecPool', 'RecPool.cfg')
    files = ([], [], [], [])
    def go(b, mem, **env):
        r, s, t = ['%s/%s%d.ndjson' % (c.dir, k, c.nbin) for k in 'gsl']
        o = c.run(b, dict(OBS2=r, OBS3=s, OBS4=t, HANG=100, **env), mem_gb=mem)
        for l, f in zip(files, (o, r, s, t)):
            l.append(f)
    lb = line_classes(c)
    b = c.build('conc', extra=lb)
    for i in range(6 if c.thorough else 2):
        go(b, 12, STEP=1, WIDTH=9 - i, RND=2000 if c.thorough else 500, VERIF_SEED=c.seed * 100 + 50 + i)
    r = c.build('conc', race=True, extra=lb)
    # tables are set up with the first use: several processes
    for i in range(60 if c.thorough else 8):
        go(r, 0, WIDTH=16, RND=120 if c.thorough else 60, VERIF_SEED=c.seed * 100 + i)
        if c.bad:
            return
    for module, l in zip(('WordBreakTrace', 'GraphemeTrace', 'SimpleWordTrace', 'LineBreakTrace'), files):
        c.judge(module, c.cat(l), min_obs=500)


@check('S06')
def combined(c):
    c.model('SegmenterMC', 'SegmenterMC2.cfg' if c.thorough else 'SegmenterMCq.cfg')
    files = ['%s/%s.ndjson' % (c.dir, k) for k in 'gsl']
    files.insert(0, c.run(c.build('conc', extra=line_classes(c)),
                          dict(MODE='comb', OBS2=files[0], OBS3=files[1], OBS4=files[2],
                               **({'PAIRS': 1, 'RND': 30000} if c.thorough else {'PAIRS': 8, 'RND': 1500}))))
    for module, f in zip(('WordBreakTrace', 'GraphemeTrace', 'SimpleWordTrace', 'LineBreakTrace'), files):
        c.judge(module, f, min_obs=5000)


# ---- strings, widths -------------------------------------------------------------------------
@check('F01')
def first_legal(c):
    c.model('Utf8MC', 'Utf8MC5.cfg' if c.thorough else 'Utf8MC.cfg')
    b = c.build('str')
    obs = c.run(b, dict(MODE='first', **({'EXH': 4, 'RND': 300000} if c.thorough else {'EXH': 3, 'RND': 30000})))
    c.judge('Utf8Trace', obs, min_obs=30000)


@check('G02')
def grapheme_strings(c):
    c.model('GStringMC', 'GStringMC.cfg' if c.thorough else 'GStringMC5.cfg')
    b = c.build('str')
    obs = c.run(b, dict(MODE='gstr', **({'EXH': 4, 'RND': 100000, 'LONG': 20} if c.thorough else
                                        {'EXH': 3, 'RND': 10000, 'LONG': 3})))
    c.judge('GStringTrace', obs, min_obs=10000)


@check('E01')
def widths(c):
    c.model('EAWidthMC', 'EAWidthMC.cfg' if c.thorough else 'EAWidthMC3.cfg')
    b = c.build('str')
    obs = c.run(b, dict(MODE='width', RND=200000 if c.thorough else 15000))
    c.judge('EAWidthTrace', obs, min_obs=30000)


@check('E02')
def contexts(c):
    c.model('EAContextMC')
    b = c.build('str')
    obs = [c.run(b, dict(MODE='ctx', RND=200000 if c.thorough else 20000))]
    b = c.build('str', race=True)
    obs += [c.run(b, dict(MODE='ctxpar', RND=300 if c.thorough else 60, VERIF_SEED=c.seed * 10 + i), mem_gb=0)
            for i in range(10 if c.thorough else 3)]
    c.judge('EAContextTrace', c.cat(obs), min_obs=20000)


@check('C01')
def class_tables(c):
    c.model('ClassTablesMC')
    obs = c.run(c.build('cls'), {})
    # all code points must have been recorded
    nxt = {}
    for line in open(obs):
        o = json.loads(line)
        n = nxt.get(o['p'], 1)
        if o['lo'] != (0xe000 if n == 0xd800 else n):
            raise CheckError('%s: code point %X is missing' % (o['p'], n))
        nxt[o['p']] = o['hi'] + 1
    if nxt != {'wb': 0x110000, 'gcb': 0x110000, 'emoji': 0x110000}:
        raise CheckError('code points are missing')
    names = {'wb': ('wb.txt', {'LePict': 'ALetter', 'Pict': 'Other'}), 'gcb': ('gcb.txt', {'Pict': 'Any'}),
             'Emoji': ('emoji.txt', {}), 'EPres': ('epres.txt', {}), 'EMod': ('emod.txt', {}),
             'EBase': ('ebase.txt', {}), 'EComp': ('ecomp.txt', {}), 'ExtPict': ('extpict.txt', {})}
    c.judge('ClassTablesTrace', obs, min_obs=1000, env={'TABLES': c.tables(names)})
    c.extra['code_points_judged'] = 3 * 0x10ffff


@check('T01')
def hash_trie(c):
    c.model('TrieHash', 'TrieHash7.cfg' if c.thorough else 'TrieHash.cfg')
    if c.thorough:
        c.model('TrieHash', 'TrieHash3.cfg')
    obs = c.run(c.build('trie'), dict(RND=30000 if c.thorough else 3000, PAR=20))
    if c.thorough:
        obs = c.cat([obs, c.run(c.build('trie', race=True), dict(RND=10, PAR=300), mem_gb=0)])
    c.judge('TrieTrace', obs, min_obs=3000)


# ---- Unicode Character Database ---------------------------------------------------------------
@check('U01')
def ucd_files(c):
    c.model('UcdMC', 'UcdMC6.cfg' if c.thorough else 'UcdMC.cfg')
    obs = c.run(c.build('ucd'), dict(**({'EXH': 3, 'RND': 150000, 'BIG': 40} if c.thorough else
                                        {'EXH': 2, 'RND': 8000, 'BIG': 6})))
    c.judge('UcdTrace', obs, min_obs=8000)


@check('U02')
def generators(c):
    c.model('RangeTableMC')
    env = {'BIN_' + n: c.tool(d) for n, d in (
        ('tablegen', 'internal/tablegen'), ('brackgen', 'bidi/internal/gen'), ('uax14', 'uax14/internal/generator'),
        ('uax29', 'uax29/internal/generator'), ('grapheme', 'grapheme/internal/generator'),
        ('emoji', 'emoji/internal/generator'))}
    obs = c.run(c.build('gen'), dict(env, SCRATCH=c.dir, **({'TAB': 6000, 'CLS': 600} if c.thorough else
                                                            {'TAB': 600, 'CLS': 80})), timeout=700)
    c.judge('GenTrace', obs, min_obs=900)


@check('U03')
def test_files(c):
    c.model('UcdTestMC', 'UcdTestMC7.cfg' if c.thorough else 'UcdTestMC.cfg')
    obs = c.run(c.build('tst'), dict(SCRATCH=c.dir, **({'EXH': 3, 'RND': 40000, 'BIG': 40} if c.thorough else
                                                       {'EXH': 2, 'RND': 4000, 'BIG': 4})))
    c.judge('UcdTestTrace', obs, min_obs=8000)


@check('C02')
def shaping_tables(c):
    c.model('RangeTableMC')
    obs = c.run(c.build('shp'), {})
    nxt = {}
    for line in open(obs):
        o = json.loads(line)
        if o['t'] == '':
            if o['lo'] != nxt.get(o['p'], 0):
                raise CheckError('%s: code point %X is missing' % (o['p'], nxt.get(o['p'], 0)))
            nxt[o['p']] = o['hi'] + 1
    if nxt != {'arab': 0x110000, 'inpc': 0x110000, 'insc': 0x110000}:
        raise CheckError('code points are missing')
    c.judge('ShapingTrace', obs, min_obs=1000,
            env={'TABLES': c.tables({n: (n + '.txt', {}) for n in nxt})})
    c.extra['code_points_judged'] = 3 * 0x110000


# ---- line breaks ----------------------------------------------------------------------------
@check('L01')
def line_breaks(c):
    c.model('LineBreakMC', 'LineBreakMC.cfg' if c.thorough else 'LineBreakMC3.cfg')
    if c.thorough:
        c.model('LineBreakMC', 'LineBreakMCn.cfg')
    b = c.build('lb', extra=line_classes(c))
    r = c.dir + '/ranges.ndjson'
    obs = c.run(b, dict(OBS2=r, **({'EXH': 3, 'PART': 4, 'RND': 200000} if c.thorough else {'EXH': 2, 'PART': 4, 'RND': 40000})))
    c.judge('LineBreakTrace', obs, min_obs=30000)
    c.ranges(r, 'lb.txt', True)
