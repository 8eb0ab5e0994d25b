#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py gen|run FILE ...

Makes small changes to one source file at a time in scratch copies under /tmp/m, drops the ones that do not compile,
that compile to the same code, or that the library's own tests notice, and runs the checks of that module
against the rest.  Survivors of everything are printed: each is either equivalent or a gap in the checks.
  mutate.py FILE[:from-to] ... [-o OUT] [-c C01,C02] [-s SCALE]
"""
import os, re, subprocess, sys, shutil, hashlib, json, threading
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
CHECKS = [
    (r'strview\.[ch]$', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08']),
    (r'strbuf\.[ch]$', ['C09', 'C12', 'C13', 'C14', 'C10', 'C11', 'C15', 'C17', 'C28', 'C16']),
    (r'strnum\.[ch]$', ['C21', 'C18', 'C19', 'C20']),
    (r'_io\.[ch]$', ['C22', 'C11']),
    (r'pack\.h$|xendian\.h$', ['C23']),
    (r'strbuf_crypt', ['C24', 'C25', 'C13']),
]
TESTFLAGS = '-DPLATFORM_PC -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB -DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB -std=gnu99 -fsanitize=address,undefined -w -I. -I..'.split()

def strip_comments(s):
    """blank out comments and string/char literals, keeping offsets"""
    out = list(s); i = 0
    while i < len(s):
        if s.startswith('/*', i):
            j = s.find('*/', i + 2); j = len(s) if j < 0 else j + 2
        elif s.startswith('//', i):
            j = s.find('\n', i); j = len(s) if j < 0 else j
        elif s[i] == '"':
            j = i + 1
            while j < len(s) and s[j] != '"': j += 2 if s[j] == '\\' else 1
            j += 1
        elif s[i] == "'":
            j = i + 1
            while j < len(s) and s[j] != "'": j += 2 if s[j] == '\\' else 1
            j += 1
            i = j; continue
        else:
            i += 1; continue
        for k in range(i, min(j, len(s))):
            if out[k] != '\n' and out[k] != '\r': out[k] = ' '
        i = j
    return ''.join(out)

SWAPS = [('<=', ['<', '>=']), ('>=', ['>', '<=']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), ('++', ['--']), ('--', ['++']),
         ('+=', ['-=', '=']), ('-=', ['+=', '=']), ('<<', ['>>']), ('>>', ['<<']), ('<', ['<=', '>']), ('>', ['>=', '<']),
         ('+', ['-', '']), ('-', ['+', '']), ('*', ['+']), ('/', ['*']), ('%', ['/']), ('&', ['|']), ('|', ['&']), ('!', ['']), ('~', [''])]
WORDS = [('true', ['false']), ('false', ['true']), ('size', ['capacity']), ('capacity', ['size']), ('int64_t', ['int32_t']), ('uint64_t', ['uint32_t']), ('long long', ['int']), ('size_t', ['int']),
         ('memmove', ['memcpy']), ('unsigned', ['']), ('continue', ['break']), ('break', ['']), ('static', ['']), ('const', []), ('first', ['last']), ('last', ['first']), ('before', ['after']), ('start', ['end']), ('end', ['start']), ('left', ['right']),
         ('uint8_t', ['int8_t']), ('long double', ['double']), ('double', ['float']), ('INT_MAX', ['(INT_MAX-1)', 'INT_MIN']), ('LLONG_MAX', ['INT_MAX', '(LLONG_MAX-1)']), ('ULLONG_MAX', ['LLONG_MAX', '(ULLONG_MAX-1)']), ('ERANGE', ['EINVAL']), ('EINVAL', ['ERANGE'])]

def mutants(text):
    code = strip_comments(text)
    # declarations of include guards and plain preprocessor conditions are not worth it
    seen = set()
    def emit(a, b, new):
        m = text[:a] + new + text[b:]
        k = (a, b, new)
        if k in seen: return None
        seen.add(k)
        return (a, b, new, m)
    skip = [(m.start(), m.end()) for m in re.finditer(r'(?m)^[ \t]*#[ \t]*(if|ifdef|ifndef|elif|endif|include|error|pragma|else|undef)[^\n]*', code)]
    def skipped(p): return any(a <= p < b for a, b in skip)
    res = []
    toks = list(re.finditer(r"<<=|>>=|->|\+\+|--|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|\^=|<<|>>|[-+*/%&|!~<>=]|'(?:\\.|[^'\\])+'|\b0[xX][0-9a-fA-F]+\w*|\b\d+\w*\b|\blong long\b|\blong double\b|\b[A-Za-z_]\w*\b", code))
    sw, wd = dict(SWAPS), dict(WORDS)
    for t in toks:
        a, b, s = t.start(), t.end(), t.group()
        if skipped(a): continue
        opts = []
        if s in sw: opts = sw[s]
        elif s in wd: opts = wd[s]
        elif re.fullmatch(r'\d+[uUlL]*', s):
            n = int(re.match(r'\d+', s).group()); suf = s[len(str(n)):] if s.startswith(str(n)) else ''
            opts = [str(n + 1) + suf] + ([str(n - 1) + suf] if n else [])
        elif re.fullmatch(r'0[xX][0-9a-fA-F]+', s):
            opts = [hex(int(s, 16) ^ 1)]
        elif s.startswith("'"):
            opts = ["'\\1'"]
        for o in opts:
            if s == '&' and text[a - 1:a + 1] == '&&': continue
            r = emit(a, b, o)
            if r: res.append(r)
    # conditions
    for m in re.finditer(r'\b(if|while)\s*\(', code):
        if skipped(m.start()): continue
        i = m.end(); d = 1
        while d and i < len(code):
            d += (code[i] == '(') - (code[i] == ')'); i += 1
        for new in ('0', '1', '!(' + text[m.end():i - 1] + ')'):
            if m.group(1) == 'while' and new == '1': continue
            r = emit(m.end(), i - 1, new)
            if r: res.append(r)
        # drop a conjunct
        inner = code[m.end():i - 1]
        for op in ('&&', '||'):
            d = 0; cuts = []
            for k in range(len(inner)):
                d += (inner[k] == '(') - (inner[k] == ')')
                if d == 0 and inner.startswith(op, k): cuts.append(k)
            if cuts:
                pts = [-2] + cuts + [len(inner)]
                for q in range(len(pts) - 1):
                    lo, hi = pts[q] + 2, pts[q + 1]
                    r = emit(m.end() + lo, m.end() + hi, '1' if op == '&&' else '0')
                    if r: res.append(r)
    # statements
    for m in re.finditer(r'(?m)(?<=[;{})\n])[ \t]*([^;{}#\n]*[^;{}#\n ])[ \t]*;', code):
        st = m.group(1).strip()
        if skipped(m.start()) or not st: continue
        if re.match(r'(return|typedef|extern|static|struct|union|enum|case|default|goto|for|else|do|int|char|bool|strview_t|strbuf_t|const|unsigned|size_t|void|uint\w+|int\w+_t|long|double|float|if|while)\b', st) and not re.match(r'(return|if|while)\b', st): continue
        if re.match(r'(return)\b', st):
            continue
        a = m.start(1); b = m.end()
        r = emit(a, b, ';' + ' ' * 0)
        if r: res.append(r)
    for m in re.finditer(r'\belse\b(?!\s*if)', code):
        if skipped(m.start()): continue
        r = emit(m.start(), m.end(), ' ')
        if r: res.append(r)
    return res

def wide_mutants(text):
    """truncations and errors that only one size shows: how far the workloads reach (-k wide)"""
    code = strip_comments(text); res = []
    skip = [(m.start(), m.end()) for m in re.finditer(r'(?m)^[ \t]*#[^\n]*', code)]
    n = 0
    for m in re.finditer(r'\bint\b|\bsize_t\b', code):
        if any(a <= m.start() < b for a, b in skip) or text.rfind('\n', 0, m.start()) + 1 == m.start(): continue
        for new in ('short', 'unsigned char'): res.append((m.start(), m.end(), new, text[:m.start()] + new + text[m.end():]))
    for m in re.finditer(r'\(?\*?\b[A-Za-z_]\w*\)?(?:(?:->|\.)\w+)*(?:->|\.)(?:size|capacity)\b(?!\s*(?:=[^=]|\+=|-=|\+\+|--))|\b(?:len|length|count|index|begin|end|char_count|total|min_size|digits|index)\b(?!\s*(?:=[^=]|\+=|-=|\+\+|--|\())', code):
        if any(a <= m.start() < b for a, b in skip): continue
        e = text[m.start():m.end()]
        if e.startswith('(') and ')' not in e: continue
        if code[m.start() - 2:m.start()] in ('++', '--') or code[m.start() - 1] in '&.>': continue
        n += 1
        for k, new in enumerate(('((short)(E))', '((unsigned char)(E))', '((E) >= 65536 ? (E)-1 : (E))', '((E) == 256 ? 255 : (E))', '((E) == 4096 ? 4095 : (E))', '((E) == 33 ? 32 : (E))', '((E) == 10000 ? 9999 : (E))')):
            if k >= 2 and k - 2 != n % 5: continue
            new = new.replace('E', e)
            res.append((m.start(), m.end(), new, text[:m.start()] + new + text[m.end():]))
    return res

local = threading.local()
nworker = [0]
lock = threading.Lock()
def scratch():
    if not hasattr(local, 'd'):
        with lock:
            nworker[0] += 1; local.d = '/tmp/m/w%d.%d' % (os.getpid(), nworker[0])
        shutil.rmtree(local.d, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', REPO, local.d], check=True)
    return local.d

def sh(cmd, cwd, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode('latin-1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def objs(d, f):
    """compiled form of what the change may touch, at -O2"""
    h = hashlib.sha256()
    srcs = ['strview.c', 'strbuf.c', 'strnum.c'] if '/' not in f else []
    if f.endswith('.c'): srcs = [f]
    if f.endswith('.h'): srcs = [None]
    for s in srcs:
        if s is None:
            # headers: preprocess and hash the text of a program that uses every macro
            return None
        rc, out = sh(['gcc', '-O2', '-S', '-w', '-std=gnu11', '-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_PROVIDE_PRNF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', '-I.', '-Itest', '-Iaccessories', '-Iaccessories/strbuf_crypt', s, '-o', '-'], d, 60)
        if rc != 0: return False
        h.update(re.sub(r'(?m)^\s*\.(file|loc|ident).*$', '', out).encode())
    return h.hexdigest()

TIER = 'quick'
def process(job):
    f, a, b, new, text, orig_hash, checks, scale, run_all = job
    d = scratch(); path = os.path.join(d, f)
    old = open(path, newline='').read()
    res = dict(file=f, a=a, b=b, new=new)
    try:
        open(path, 'w', newline='').write(text)
        if orig_hash:
            h = objs(d, f)
            if h is False: res['status'] = 'nocompile'; return res
            if h == orig_hash: res['status'] = 'same-code'; return res
        if '/' not in f:
            rc, out = sh(['gcc'] + TESTFLAGS + ['../strview.c', '../strbuf.c', '../strnum.c', 'test.c', 'prnf.c', 'version.c', '-o', '/tmp/m/t%s' % os.path.basename(d), '-lm'], d + '/test', 60)
            if rc != 0: res['status'] = 'nocompile'; return res
            rc, out = sh(['/tmp/m/t%s' % os.path.basename(d)], d + '/test', 20)
            if rc != 0 or not re.search(r'fail: 0', out): res['status'] = 'tests'; return res
        res['by'] = []
        for c in checks:
            env = dict(os.environ, VERIF_NPROC='1')
            try:
                r = subprocess.run(['python3', '/verif/check.py', c, '--tier', TIER, '--repo', d, '--scale', str(scale)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=1500)
                rc, out = r.returncode, r.stdout.decode('latin-1')
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
            if rc != 0:
                k = re.search(r'\n  (\S+:\S+): ', '\n' + out)
                res['by'].append('%s(%s)' % (c, k.group(1) if k else 'rc%s' % rc if rc != 1 else '?'))
                if rc == 3 and 'build failed' in out: res['status'] = 'nocompile'; return res
                if not run_all: break
        res['status'] = 'caught' if any('(rc' not in x for x in res['by']) else 'odd' if res['by'] else 'SURVIVED'
        return res
    finally:
        open(path, 'w', newline='').write(old)

def main():
    global TIER
    args = sys.argv[1:]; files = []; out = '/tmp/m/result.jsonl'; only = None; scale = 0.25; run_all = False; workers = 8; make = mutants
    while args:
        x = args.pop(0)
        if x == '-o': out = args.pop(0)
        elif x == '-c': only = args.pop(0).split(',')
        elif x == '-s': scale = float(args.pop(0))
        elif x == '-a': run_all = True
        elif x == '-k': make = {'wide': wide_mutants}[args.pop(0)]
        elif x == '-w': workers = int(args.pop(0))
        elif x == '-t': TIER = args.pop(0)
        else: files.append(x)
    jobs = []
    for f in files:
        lo, hi = 0, 10 ** 9
        if ':' in f:
            f, r = f.split(':'); lo, hi = map(int, r.split('-'))
        text = open(os.path.join(REPO, f), newline='').read()
        checks = only or next(c for r, c in CHECKS if re.search(r, f))
        oh = objs(REPO, f)
        n = 0
        for a, b, new, m in make(text):
            line = text.count('\n', 0, a) + 1
            if lo <= line <= hi:
                jobs.append((f, a, b, new, m, oh, checks, scale, run_all)); n += 1
        print(f, n, 'mutants', flush=True)
    counts = {}
    with open(out, 'w') as o, ThreadPoolExecutor(workers) as ex:
        for r in ex.map(process, jobs):
            counts[r['status']] = counts.get(r['status'], 0) + 1
            text = open(os.path.join(REPO, r['file']), newline='').read()
            ls = text.rfind('\n', 0, r['a']) + 1; le = text.find('\n', r['b'])
            r['line'] = text.count('\n', 0, r['a']) + 1
            r['was'] = text[ls:le].strip(); r['now'] = (text[ls:r['a']] + r['new'] + text[r['b']:le]).strip()
            o.write(json.dumps(r) + '\n'); o.flush()
            if r['status'] in ('SURVIVED', 'odd'):
                print('%s %s:%d\n    - %s\n    + %s %s' % (r['status'], r['file'], r['line'], r['was'], r['now'], ' '.join(r.get('by', []))), flush=True)
    print(counts)
    for d in os.listdir('/tmp/m'):
        if d.startswith(('w%d.' % os.getpid(), 'tw%d.' % os.getpid())):
            p = '/tmp/m/' + d
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)

main()
