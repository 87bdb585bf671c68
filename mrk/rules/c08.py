"""C08: the metric attribute."""
import itertools, json, os, re, subprocess
from ..frame import rule, Missing
from ..q import *
from ..core import T, mk, show, short, FNS
from .. import shared, witness, build
SCOPE = 'core'
TECHNIQUE = 'static analysis: compiler-expanded declarations (every subset and order of the arguments) judged by value-flow analysis of their MIR, plus compile-fail witnesses for every repeated or unknown argument'
EXPLAIN = ("A fixture crate declares metrics with every subset of the five arguments in every order, and with idents, metric types, initialisers, strings, expressions and metadata sets chosen to be awkward. It is type-checked (never run) against the current crates, and the MIR of each expansion is interpreted: the static must have exactly one entry in "
           "the metrics section, built for that very static, with the declared (or default) name and description; its injected provider must provide exactly the declared metadata pairs and formatter; the static must keep the type and initial value of an unannotated twin. Every sequence of up to four arguments with a repetition, every way of repeating a metadata key and a list of unknown arguments must be rejected at the line that declares it. "
           "How an entry is built, wrapped and asked for its context is decided by the forwarding rules.")
ASSUME = ["linkme gathers every static of its section", "phf answers from the entries it was given", "argument values are not distinguished by the macro beyond the sampled strings and expressions"]
E_ = 'metriken_core::MetricEntry'
IP = 'metriken_core::wrapper::InjectedProvider'
REQ = 'metriken_core::provide::Request::'
KINDS = ('name', 'description', 'metadata', 'formatter', 'crate')
ASCII = ''.join(chr(c) for c in range(32, 127))
def lit(s): return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')

PRE = '''#![allow(warnings)]
extern crate metriken as renamed; use metriken::*;
pub mod fx { use super::*; pub fn fa(_: &MetricEntry, _: Format) -> String { String::new() } pub fn fb(_: &MetricEntry, _: Format) -> String { String::new() } pub const FC: fn(&MetricEntry, Format) -> String = fa; pub const S1: &str = "const one"; pub const S2: &str = "const two"; pub const fn pick(p_1: bool) -> &'static str { "picked" } pub const CAP: usize = 3;
 #[derive(Default)] pub struct U(pub u64, pub &'static str); impl U { pub const fn new(p_1: u64, p_2: &'static str) -> Self { U(p_1, p_2) } } impl Metric for U { fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) } fn value(&self) -> Option<Value<'_>> { None } }
 pub struct G<T>(pub T, pub i32); impl<T: Send + Sync + 'static> Metric for G<T> { fn as_any(&self) -> Option<&dyn std::any::Any> { None } fn value(&self) -> Option<Value<'_>> { None } } }
pub mod alt { pub mod inner { pub use metriken::*; } }
use fx::*;
'''
PRELINES = PRE.count('\n')

class M:
    """one declared metric and what must come of it"""
    def __init__(s, ident, args='', name=None, desc=None, meta=None, fmt='metriken_core::formatter::default_formatter', ty='Counter', init='Counter::new()', attrs='', pre='', post='', mod='', vis='pub', bare=False):
        s.ident, s.args, s.name, s.desc, s.meta, s.fmt, s.ty, s.init = ident, args, ident if name is None else name, desc, meta or {}, fmt, ty, init
        s.attrs, s.pre, s.post, s.mod, s.vis, s.bare = attrs, pre, post, mod, vis, bare
    def path(s): return '::'.join(x for x in ('fx8', s.mod, s.ident) if x)
    def line(s):
        a = '#[metric]' if s.bare else '#[metric(%s)]' % s.args
        body = '%s %s %s %s static %s: %s = %s;' % (s.attrs if s.attrs.startswith('!') is False else '', a, '', s.vis, s.ident, s.ty, s.init)
        return '%s %s %s pub mod tw_%s { use super::*; pub static %s: %s = %s; }' % (s.pre, body, s.post, s.ident if not s.mod else s.mod + s.ident, s.ident, s.ty, s.init)
    def twin(s): return 'fx8::tw_%s::%s' % (s.ident if not s.mod else s.mod + s.ident, s.ident)

def decls():
    out = []
    val = {'name': ('name = "n/%d"', lambda i: dict(name='n/%d' % i)), 'description': ('description = "d %d"', lambda i: dict(desc='d %d' % i)),
           'metadata': ('metadata = { k%d = "v", "s t" = "w" }', lambda i: dict(meta={'k%d' % i: 'v', 's t': 'w'})), 'formatter': ('formatter = fa', lambda i: dict(fmt='fx8::fx::fa')), 'crate': ('crate = metriken', lambda i: {})}
    i = 0
    for n in range(6):
        for ks in itertools.permutations(KINDS, n):
            i += 1; kw = {}; a = []
            for k in ks:
                a.append(val[k][0] % i if '%' in val[k][0] else val[k][0]); kw.update(val[k][1](i))
            out.append(M('P%d' % i, ', '.join(a), **kw))
    # identifiers
    for n in ('a', 'Z', 'lower_case', 'MixedCase', '_LEADING', 'TRAILING_', 'a__b', 'X1', 'METRIC', 'name', 'description', 'metadata', 'formatter', 'metric', 'NAME_' + 'LONG_' * 30, 'Ünï', 'Some_', 'entry', 'krate', 'Counter2'):
        out.append(M(n, bare=True)); out.append(M(n, 'description = "x"', desc='x', mod='m2' + re.sub(r'\W', 'u', n), pre='pub mod m2%s { use super::*;' % re.sub(r'\W', 'u', n), post='}'))
    # strings
    strs = ['', ' ', ' padded ', 'UPPER', 'lower', 'MiXed', 'a/b', 'a.b-c_d:e', ASCII, 'tab\tnew\nline', 'ünïcode ☃ 漢字', '{}', '{name}', 'x' * 3000, '0', '-1', 'None', 'true', 'name', 'description', 'crate', '\\', '"', "'", '//', '/*', '#', 'S3', 'aa', 'trailing.', '.leading', '_', '__x__', 'a  b', '%s', '$x', 'self', '\u200b', 'é', 'metriken']
    for j, s in enumerate(strs):
        out.append(M('ST%d' % j, 'name = %s' % lit(s), name=s)); out.append(M('D%d' % j, 'description = %s' % lit(s), desc=s))
        out.append(M('V%d' % j, 'metadata = { key = %s }' % lit(s), meta={'key': s})); out.append(M('K%d' % j, 'metadata = { %s = "value" }' % lit(s), meta={s: 'value'}))
        out.append(M('KV%d' % j, 'metadata = { %s = %s }, name = %s, description = %s' % ((lit(s),) * 4), meta={s: s}, name=s, desc=s))
    out.append(M('RAW', 'name = r#"raw "x" \\n"#, description = r"\\d", metadata = { r"\\k" = r##"#"# v"## }', name='raw "x" \\n', desc='\\d', meta={'\\k': '#"# v'}))
    out.append(M('ESC', 'name = "\\u{41}\\x42\\t", metadata = { "\\u{43}" = "\\x44" }', name='AB\t', meta={'C': 'D'}))
    # expressions
    for j, (e, v) in enumerate((('S1', 'const one'), ('fx::S2', 'const two'), ('concat!("a", "/", 1)', 'a/1'), ('stringify!(x y)', 'x y'), ('if CAP > 2 { "big" } else { "small" }', 'big'), ('{ const Q: &str = "inner"; Q }', 'inner'), ('("paren")', 'paren'), ('match 1 { 1 => S1, _ => S2 }', 'const one'), ('&*S1', 'const one'))):
        out.append(M('EN%d' % j, 'name = %s' % e, name=v)); out.append(M('ED%d' % j, 'description = %s, name = "e"' % e, desc=v, name='e')); out.append(M('EV%d' % j, 'metadata = { a = %s, b = "lit" }' % e, meta={'a': v, 'b': 'lit'}))
    # metadata sets
    for n in list(range(0, 13)) + [17, 33, 64]:
        kv = [('key%d' % x, 'value %d' % (n - x)) for x in range(n)]
        out.append(M('MI%d' % n, 'metadata = { %s }' % ', '.join('%s = "%s"' % x for x in kv), meta=dict(kv))); out.append(M('MS%d' % n, 'metadata = { %s }' % ' '.join('"%s" = "%s",' % x for x in reversed(kv)), meta=dict(kv)))
    for j, d in enumerate(([('a', '1'), ('A', '2')], [('a', '1'), ('"a "', '2'), ('" a"', '3')], [('"a-b"', '1'), ('a_b', '2'), ('"a.b"', '3'), ('"a b"', '4')], [('name', 'n'), ('description', 'd'), ('formatter', 'f'), ('metadata', 'm'), ('unit', 'u'), ('id', '0'), ('metric', 'x')], [('z', 'same'), ('y', 'same'), ('x', 'same')], [('""', ''), ('_x', '')], [('"crate"', 'c'), ('"type"', 't')], [('k1', 'v1'), ('k10', 'v10'), ('k', 'v')], [('a', 'b'), ('b', 'a')], [('"é"', '1'), ('"e\u0301"', '2')], [('v', 'v'), ('vv', 'v'), ('vvv', 'vv')])):
        out.append(M('MX%d' % j, 'metadata = { %s }' % ', '.join('%s = %s' % (k, lit(v)) for k, v in d), meta={k.strip('"'): v for k, v in d}))
    out.append(M('MT', 'metadata = { a = "b", "c" = "d", }', meta={'a': 'b', 'c': 'd'}))
    # formatters
    for j, (e, f) in enumerate((('fb', 'fx8::fx::fb'), ('fx::fb', 'fx8::fx::fb'), ('crate::fx::fa', 'fx8::fx::fa'), ('metriken::default_formatter', 'metriken_core::formatter::default_formatter'), ('|_, _| String::new()', 'closure'), ('FC', None), ('{ fb }', 'fx8::fx::fb'))):
        out.append(M('F%d' % j, 'formatter = %s' % e, fmt=f)); out.append(M('FN%d' % j, 'formatter = %s, name = "f", metadata = { q = "r" }' % e, fmt=f, name='f', meta={'q': 'r'}))
    # crate paths
    for j, c in enumerate(('metriken', 'renamed', 'crate::alt::inner', 'alt::inner', 'self::alt::inner', '::metriken')):
        c2 = c
        out.append(M('C%d' % j, 'crate = %s' % c2)); out.append(M('CN%d' % j, 'name = "c", crate = %s, description = "d", metadata = { a = "b" }, formatter = fa' % c2, name='c', desc='d', meta={'a': 'b'}, fmt='fx8::fx::fa'))
    # metric types and initial values
    for j, (t, x) in enumerate((('Gauge', 'Gauge::new()'), ('LazyCounter', 'LazyCounter::new(Counter::default)'), ('LazyGauge', 'LazyGauge::new(Gauge::default)'), ('Lazy<Gauge>', 'Lazy::new(Gauge::new)'), ('AtomicHistogram', 'AtomicHistogram::new(7, 64)'), ('RwLockHistogram', 'RwLockHistogram::new(3, 32)'), ('metriken::Counter', 'metriken::Counter::new()'), ('U', 'U::new(7, "seven")'), ('U', 'U(9, S1)'), ('fx::U', 'U { 0: 1 + 2, 1: pick(false) }'), ('G<u8>', 'G(5, -3)'), ('G<&\'static str>', 'G("s", i32::MAX)'), ('G<[u8; CAP]>', 'G([1, 2, 3], 0)'), ('U', '{ const K: u64 = 40; U(K + 2, "block") }'), ('U', 'if CAP == 3 { U(1, "y") } else { U(0, "n") }'), ('G<Option<U>>', 'G(None, 1)'))):
        out.append(M('T%d' % j, bare=True, ty=t, init=x)); out.append(M('TN%d' % j, 'name = "t", description = "u", metadata = { v = "w" }', ty=t, init=x, name='t', desc='u', meta={'v': 'w'}))
    # visibility, attributes, places
    for j, v in enumerate(('', 'pub(crate)', 'pub')): out.append(M('VI%d' % j, bare=True, vis=v))
    for j, a in enumerate(('/** doc */', '#[doc(hidden)]', '#[allow(dead_code)]', '#[cfg(all())]', '#[deprecated]', '#[doc = "x"] #[used]')): out.append(M('AT%d' % j, 'name = "at"', name='at', attrs=a))
    out.append(M('SAME', 'name = "SAME"', name='SAME')); out.append(M('EMPTYP', ''))
    for j in range(3): out.append(M('DUP', 'name = "twice", metadata = { a = "b" }', name='twice', meta={'a': 'b'}, mod='d%d' % j, pre='pub mod d%d { use super::*;' % j, post='}'))
    for j in range(2): out.append(M('DUP2_%d' % j, 'name = "twice"', name='twice'))
    out.append(M('INFN', 'name = "fn", metadata = { a = "b" }', name='fn', meta={'a': 'b'}, mod='infn', pre='pub fn infn() {', post='}', vis=''))
    return out

def rejected():
    """declarations that must not compile: (why, arguments)"""
    v = {'name': ('name = "a"', 'name = "b"'), 'description': ('description = "a"', 'description = "b"'), 'metadata': ('metadata = { a = "a" }', 'metadata = { b = "b" }'), 'formatter': ('formatter = fa', 'formatter = fb'), 'crate': ('crate = metriken', 'crate = renamed')}
    for n in (2, 3, 4):
        for ks in itertools.product(KINDS, repeat=n):
            if len(set(ks)) == n: continue
            for same in (True, False):
                seen = set(); a = []
                for k in ks: a.append(v[k][0 if same or k not in seen else 1]); seen.add(k)
                d = [k for k in KINDS if ks.count(k) > 1][0]
                yield 'repeats %s (%s)' % (d, ' '.join(ks) + (', equal' if same else '')), ', '.join(a)
    for d in ('metadata = {}, metadata = {}', 'metadata = {}, metadata = { a = "b" }', 'name = "", name = ""', 'description = "", description = ""', 'metadata = { a = "b" }, name = "x", metadata = {}'): yield 'repeats an argument (%s)' % d, d
    for k1, k2 in (('a', 'a'), ('a', '"a"'), ('"a"', 'a'), ('"a"', '"a"'), ('"x y"', '"x y"'), ('""', '""'), ('"a"', 'r"a"'), ('a', '"\\x61"'), ('unit', 'unit'), ('name', '"name"'), ('key0', 'key0')):
        for v1, v2 in (('"v"', '"v"'), ('"v"', '"w"'), ('S1', 'S2'), ('""', '"w"'), ('"v"', '""')):
            for fill in ('%s = %s, %s = %s', 'p = "q", %s = %s, %s = %s', '%s = %s, p = "q", %s = %s', '%s = %s, %s = %s, p = "q"', '%s = %s, p = "q", r = "s", t = "u", %s = %s,'):
                m = fill % (k1, v1, k2, v2)
                yield 'repeats a metadata key { %s }' % m, 'metadata = { %s }' % m
                if v1 == v2: yield 'repeats a metadata key { %s } after a name' % m, 'name = "n", metadata = { %s }, description = "d"' % m
    for u in ('foo', 'Name', 'NAME', 'names', 'name_', '_name', 'nam', 'desc', 'descriptions', 'Description', 'help', 'unit', 'meta', 'Metadata', 'metadata_', 'attrs', 'format', 'formatters', 'fmt', 'Formatter', 'krate', 'crate_', 'namespace', 'label', 'labels', 'kind', 'ty', 'value', 'init', 'enabled', 'skip', 'rename', 'id', 'version', 'x', 'help_text', 'path', 'metriken', 'alias', 'aliases', 'tags', 'priority', 'section'):
        for a in ('%s = "x"', '%s = "x", name = "n"', 'name = "n", %s = "x"', 'metadata = { a = "b" }, %s = { a = "b" }', 'name = "n", %s = "x", description = "d"', '%s = metriken', '%s = fa'):
            yield 'has an unknown argument (%s)' % (a % u), a % u

def compile_lines(ctx, name, lines, driver):
    """compile one declaration per line; returns (exit code, errors by line, other errors)"""
    d = ctx.facts_dir()
    f = '%s/%s.rs' % (d, name)
    open(f, 'w').write(PRE + '\n'.join(lines) + '\n')
    e = build.base_env(); e.pop('MRK_FACTS_DIR', None)
    if driver: e['MRK_FACTS_DIR'] = d
    cmd = [build.DRIVER if driver else 'rustc'] + ([] if driver else ['+nightly']) + ['--crate-type', 'lib', '--crate-name', name, '--edition', '2021', '--emit', 'metadata', '--cap-lints', 'allow', '--error-format', 'json', '-o', '%s/%s.rmeta' % (d, name), f]
    if driver: cmd += ['--sysroot', build.sysroot()]
    r = subprocess.run(cmd + witness._args(d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e)
    by, other = {}, []
    for l in r.stderr.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('level') != 'error' or j['message'].startswith('aborting'): continue
        hit = False
        def spans(sp):
            yield sp
            while sp.get('expansion'):
                sp = sp['expansion']['span']; yield sp
        for sp0 in j.get('spans', []):
            for sp in spans(sp0):
                if os.path.basename(sp['file_name']) == name + '.rs' and sp['line_start'] > PRELINES:
                    by.setdefault(sp['line_start'] - PRELINES - 1, []).append(j['message']); hit = True
                    break
        if not hit: other.append(j['message'])
    return r.returncode, by, other

def expansions(ctx):
    ms = decls()
    rc, by, other = compile_lines(ctx, 'fx8', [m.line() for m in ms], True)
    if rc:
        bad = {i for i in by if i < len(ms)}
        for i in sorted(bad): ctx.ob('expansion', label(ms[i]), False, 'this declaration is rejected: %s' % by[i][0][:200])
        if not bad: ctx.undecided('expansion', 'fixture', 'does not build: %s' % '; '.join(other)[:400]); return
        ms2 = [m for i, m in enumerate(ms) if i not in bad]
        rc, by, other = compile_lines(ctx, 'fx8', [m.line() for m in ms2], True)
        if rc: ctx.undecided('expansion', 'fixture', 'does not build'); return
        ms = ms2
    ctx.facts = None
    F = ctx.F
    cr = F.crates['fx8']
    st = {s['path']: s for s in cr['statics']}
    ents = {}
    for p, s in st.items():
        if s['ty'] == E_ and s['section']:
            r, prov = entry(ctx, p)
            ents.setdefault(r.get('of'), []).append((p, r, prov))
    n = 0
    for m in ms:
        n += 1
        inst = label(m)
        if m.path() not in st: ctx.ob('expansion', inst, False, 'declares no static %s' % m.path()); continue
        es = ents.pop(m.path(), [])
        if not es and None in ents: ctx.undecided('expansion', inst, 'an entry could not be followed to its static'); continue
        if not ctx.ob('expansion', inst + ': entries', len(es) == 1, 'the static has %d entries among the metrics' % len(es)): continue
        p, r, prov = es[0]
        judge(ctx, inst + ': name', r.get('name'), m.name)
        judge(ctx, inst + ': description', r.get('desc'), m.desc)
        # section must be that of the metrics
        ctx.ob('expansion', inst + ': section', slice_ok(ctx, p), 'the entry is not placed among the metrics')
        provided(ctx, inst, prov, m)
        # type and initial value
        s, t = st[m.path()], st.get(m.twin())
        if t:
            ctx.ob('expansion', inst + ': type', s['ty'] == t['ty'] and s['mut'] == t['mut'], 'the static became a %s' % s['ty'])
            a, b = initial(ctx, m.path()), initial(ctx, m.twin())
            if a is None or b is None: ctx.undecided('expansion', inst + ': initial value', 'not followed')
            else: ctx.ob('expansion', inst + ': initial value', a == b, 'the static starts as %s instead of %s' % (a[:120], b[:120]))
    for k, l in ents.items():
        if k is None: ctx.undecided('expansion', 'entries', 'not followed: %s' % [p for p, _, _ in l][:3])
        else: ctx.ob('expansion', 'entries', False, '%d entries were made for %s, which was not declared as a metric' % (len(l), k))
    ctx.notes.append('%d declarations expanded and analysed' % n)
    ctx.floor('expansion', 'declarations', n, 500)

def label(m): return 'metric(%s) static %s' % (m.args if len(m.args) < 160 else m.args[:157] + '...', m.ident[:40])
NF = object()
def judge(ctx, inst, got, want):
    if got is NF: ctx.undecided('expansion', inst, 'not followed')
    else: ctx.ob('expansion', inst, got == want, 'is %s instead of %s' % (repr(got)[:120], repr(want)[:120]))

def string(it, t):
    t = norm(it, t)
    if t.k == 'str': return t.a[0]
    return NF

def through(ctx, it, t, d=0):
    """what a value points to, through wrappers that return their argument"""
    t = norm(it, t)
    while t.k == 'cast': t = norm(it, t.a[1])
    if t.k == 'call' and d < 6 and str(t.a[0]).startswith('metriken') and t.a[0] in ctx.F.bodies:
        i2 = ctx.run(t.a[0])
        vs = {norm(i2, v) for _, v in returns(i2)}
        if len(vs) == 1 and next(iter(vs)).k == 'arg': return through(ctx, it, t.a[1][next(iter(vs)).a[0]], d + 1)
    return t

def entry(ctx, p):
    """what an entry static is built from, and the provider injected into its metric"""
    it = ctx.run(p)
    fm, fn, fd = shared.entry_fields(ctx)
    out = {}
    for nd, v in returns(it):
        v = norm(it, v)
        if not (v.k == 'agg' and v.a[0] == E_): return {'of': None}, None
        g = lambda f: it.project(v, ('f', f))
        x = through(ctx, it, g(fm))
        o = x.a[0] if x.k == 'static' else None
        if x.k == 'ref' and x.a[0][0] == 'S': o = x.a[0][1]
        d = norm(it, g(fd))
        ds = NF
        if d.k == 'agg' and d.a[1] == 'None': ds = None
        elif d.k == 'agg' and d.a[1] == 'Some': ds = string(it, d.a[3][0])
        out = {'of': o, 'name': string(it, g(fn)), 'desc': ds}
    prov = None
    b = ctx.F.bodies[p]
    for bb in b['blocks']:
        for s in bb['s']:
            if s.get('r') == 'cast' and 'Unsize' in s['ck'] and s['to'].endswith('dyn metriken_core::Metric'):
                for q in re.split(r'[<>,]', s['from']):
                    q = '<%s as %s>::provide' % (q, IP)
                    if q in ctx.F.bodies: prov = q
    return out, prov

def slice_ok(ctx, p):
    """linkme's type check of the entry names the slice it belongs to"""
    if not hasattr(ctx, '_slices'):
        ctx._slices = {k for k, b in ctx.F.bodies.items() if b.get('crate') == 'fx8' and 'metriken_core::export::METRICS' in json.dumps(b['blocks'])}
    return any(k.startswith(p + '::') for k in ctx._slices)

def provided(ctx, inst, prov, m):
    if prov is None: ctx.undecided('expansion', inst + ': context', 'no injected provider found'); return
    it = ctx.run(prov, opaque=lambda b: b['path'].startswith(REQ))
    def delta(P, s, kind, x, n):
        if kind == 'edge':
            # what the request asks for, as far as the path has found out
            if x and x[0] == 'bool' and x[1].k == 'call' and 'would_be_satisfied_by' in x[1].a[0]: return s | {(x[1], x[2])}
            return s
        return s | {x} if x.kind == 'call' and x.path.startswith(REQ) else s
    P = Prod(it, frozenset(), delta)
    for nd in exits(it):
        for s, ns in P.ends.get(nd, ()):
            got = {}; asks = {}
            calls = {e.result: e for e in s if not isinstance(e, tuple)}
            for t, v in [x for x in s if isinstance(x, tuple)]:
                e = calls.get(t)
                asks[('meta' if 'metadata::Metadata' in str(e and e.fn) and '_ref_' in t.a[0] else 'fmt' if 'FormattingFn' in str(e and e.fn) and '_value_' in t.a[0] else '?')] = v
            need = lambda k: asks.get(k) is not False and not any(v for kk, v in asks.items() if kk != k)
            for e in s:
                if isinstance(e, tuple) or 'would_be_satisfied_by' in e.path: continue
                a = e.v[1] if len(e.v) > 1 else None
                if last(e.path) not in ('provide_ref', 'provide_value', 'provide_ref_with', 'provide_value_with'): got.setdefault('?', []).append(e); continue
                ty = (e.fn or {}).get('args', [''])[0] if isinstance(e.fn, dict) else ''
                kind = 'meta' if 'metadata::Metadata' in str(e.at) + ty else 'fmt' if 'FormattingFn' in str(e.at) + ty else '?'
                if last(e.path).endswith('_with'): kind = '?'
                got.setdefault(kind, []).append((e, a))
            if '?' in got: ctx.undecided('expansion', inst + ': context', 'also provides %s' % short(str(getattr(got['?'][0], 'path', '')))); continue
            if not need('meta') and not got.get('meta'): pass
            elif not m.meta and not got.get('meta'): ctx.ob('expansion', inst + ': metadata', True)   # none declared, none provided
            elif not ctx.ob('expansion', inst + ': metadata', len(got.get('meta', [])) >= 1, 'the declared metadata is not provided'): pass
            else:
                first = min(got['meta'], key=lambda x: x[0].node)
                kv = pairs(ctx, it, first[1])
                if kv is None: ctx.undecided('expansion', inst + ': metadata', show(norm(it, first[1]))[:100])
                else: ctx.ob('expansion', inst + ': metadata', sorted(kv) == sorted(m.meta.items()), 'provides %s instead of %s' % (str(sorted(kv))[:150], str(sorted(m.meta.items()))[:150]))
            if not need('fmt') and not got.get('fmt'): continue
            if not got.get('fmt'):
                ctx.ob('expansion', inst + ': formatter', m.fmt == 'metriken_core::formatter::default_formatter', 'the declared formatter is not provided'); continue
            e, a = min(got['fmt'], key=lambda x: x[0].node)
            f = norm(it, a)
            if f.k == 'agg' and len(f.a[3]) == 1: f = norm(it, f.a[3][0])
            while f.k == 'cast': f = norm(it, f.a[1])
            nm = FNS[f.a[0]]['path'] if f.k == 'fn' else ('closure' if f.k in ('closure',) or f.k == 'agg' and 'closure' in str(f.a[0]) else None)
            if f.k == 'const' and '{closure' in show(f): nm = 'closure'
            if m.fmt is None:
                ctx.ob('expansion', inst + ': formatter', nm != 'metriken_core::formatter::default_formatter', 'formats with the default formatter')
            elif nm is None: ctx.undecided('expansion', inst + ': formatter', show(f)[:100])
            else: ctx.ob('expansion', inst + ': formatter', nm == m.fmt, 'formats with %s instead of %s' % (nm, m.fmt))

def pairs(ctx, it, a):
    """the key-value pairs of a static Metadata"""
    t = norm(it, a)
    for _ in range(8):
        p = t.a[0] if t.k == 'static' else t.a[0][1] if t.k == 'ref' and t.a[0][0] == 'S' else None
        if p:
            it = ctx.run(p)
            vs = [norm(it, v) for _, v in returns(it)]
            if len(vs) != 1: return None
            t = vs[0]; continue
        if t.k == 'agg' and t.a[0].endswith('metadata::Metadata') or t.k == 'agg' and t.a[1] == 'Static' or t.k == 'agg' and len(t.a[3]) == 1 and t.a[0].startswith('metriken_core'):
            t = norm(it, t.a[3][0]); continue
        break
    if not (t.k == 'agg' and t.a[0] == 'phf::map::Map'): return None
    e = it.project(t, ('f', 'entries'))
    arr = array(it, e)
    if arr is None: return None
    out = []
    for x in arr:
        x = norm(it, x)
        if x.k != 'agg' or len(x.a[3]) != 2: return None
        k, v = string(it, x.a[3][0]), string(it, x.a[3][1])
        if k is NF or v is NF: return None
        out.append((k, v))
    return out

def array(it, t):
    t = norm(it, t)
    while t.k == 'cast': t = norm(it, t.a[1])
    if t.k == 'ref':
        st = it.instate[max(it.instate)]
        t = norm(it, it.load(st, (t.a[0], t.a[1])))
    if t.k in ('array', 'arr'): return list(t.a[-1])
    if t.k == 'agg' and t.a[0] == '[]': return list(t.a[3])
    return None

def initial(ctx, p):
    it = ctx.run(p)
    vs = {re.sub(r'@\d+', '', show(norm(it, v))) for _, v in returns(it)}
    vs = {re.sub(r'\(fx8::[\w:]*?(\w+::)?', '(', v) for v in vs}
    v = ' | '.join(sorted(vs))
    return None if not vs or 'unk' in v or 'phi' in v else v

def rejections(ctx):
    rs = list(rejected())
    lines = ['#[metric(%s)] static R%d: Counter = Counter::new();' % (a, i) for i, (_, a) in enumerate(rs)]
    # the same lines without what makes them wrong build: shown by the expansion rule's fixture
    rc, by, other = compile_lines(ctx, 'rj8', lines, False)
    if not by and other: ctx.undecided('rejects', 'fixture', '; '.join(other)[:300]); return
    for i, (why, a) in enumerate(rs): ctx.ob('rejects', why, i in by, 'a declaration that %s compiles' % why)
    msgs = {}
    for i, (why, a) in enumerate(rs):
        if i in by: msgs[by[i][0][:40]] = msgs.get(by[i][0][:40], 0) + 1
    ctx.notes.append('rejected declarations: %d; messages: %s' % (len(by), msgs))

TRANS = ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'make_ascii_lowercase', 'make_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'replace', 'replacen', 'replace_range', 'truncate', 'split_off', 'repeat', 'insert_str', 'retain', 'drain', 'split_at', 'split', 'split_once', 'rsplit_once', 'splitn', 'escape_default', 'escape_debug', 'pop', 'remove')
def macro_source(ctx):
    """the attribute neither rewrites the strings it is given nor depends on anything but its input"""
    n = 0
    for k, b in sorted(ctx.F.bodies.items()):
        if b.get('crate') != 'metriken_derive': continue
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if not f: continue
            n += 1
            p = f['path']; at = (t.get('at') or [''])[0].lstrip('&').replace('mut ', '')
            if last(p) in TRANS and (at in ('str', 'alloc::string::String') or p.startswith(('str::', 'alloc::str::', 'alloc::string::', 'core::str::'))):
                ctx.ob('macro-source', '%s calls %s' % (b['path'], short(p)), False, 'the attribute rewrites a string it was given', t.get('sp', ''))
            if p.startswith(('std::env::', 'std::fs::', 'std::time::', 'std::process::', 'core::sync::atomic::', 'std::thread::')):
                ctx.ob('macro-source', '%s calls %s' % (b['path'], short(p)), False, 'what the attribute makes depends on more than its declaration', t.get('sp', ''))
    for c in ctx.F.crates.values():
        if c.get('crate') == 'metriken_derive':
            for s in c['statics']: ctx.ob('macro-source', s['path'], s['section'] != '' or 'proc_macro' in s['ty'] or 'Bridge' in s['ty'], 'the attribute keeps state between declarations', s['span'])
    ctx.ob('macro-source', 'calls', True)
    ctx.floor('macro-source', 'calls in the attribute', n, 20)

def check(ctx):
    rule(ctx, 'macro-source', 'metriken-derive', lambda: macro_source(ctx))
    rule(ctx, 'expansion', 'fixture', lambda: expansions(ctx))
    rule(ctx, 'rejects', 'fixture', lambda: rejections(ctx))
    rule(ctx, 'static-entry', 'entry_v1', lambda: shared.static_entry(ctx))
    rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx))
    rule(ctx, 'accessors', 'accessors', lambda: shared.accessors(ctx))
    rule(ctx, 'formatter', 'formatted', lambda: shared.formatted(ctx))
    rule(ctx, 'metadata', 'metadata', lambda: shared.metadata_accessor(ctx))
