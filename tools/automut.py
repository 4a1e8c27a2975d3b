#!/usr/bin/env python3
"""automut.py FILE(rel. to v0100) LO-HI N SEED CHECKS... : N random small edits of lines LO..HI, each run through the checks on a copy"""
import sys, re, os, random, shutil, subprocess
f, rng, n, seed, checks = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
BASE = os.environ.get('BASE', '/repo')
src = open(BASE + '/v0100/' + f, encoding='latin-1', newline='').read()
L = src.split('\n')
lines = range(1, len(L) + 1) if rng == 'all' else [x for p in rng.split(',') for x in range(int(p.split('-')[0]), int(p.split('-')[1]) + 1) if x <= len(L)]
REL = [('<=', ['<', '==']), ('>=', ['>']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), ('++', ['--']), ('--', ['++']), ('+=', ['-=']), ('-=', ['+='])]
M = []
skip = False
for i in (x - 1 for x in lines):
    t = L[i].rstrip('\r')
    code = re.sub(r'//.*', '', t)
    if '/*' in t: skip = '*/' not in t; continue
    if skip:
        skip = '*/' not in t
        continue
    if not code.strip() or code.strip().startswith('#'):
        continue
    def put(new, why):
        M.append((i, new + ('\r' if L[i].endswith('\r') else ''), why))
    for m in re.finditer(r'<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|(?<![<>=\-+])[<>](?![<>=])|(?<=[\w\)\] ])[+\-](?![+\-=>])', code):
        o = m.group(0)
        if o == '<': alts = ['<=']
        elif o == '>': alts = ['>=']
        elif o == '+': alts = ['-']
        elif o == '-': alts = ['+']
        else: alts = dict(REL)[o]
        for a in alts:
            put(t[:m.start()] + a + t[m.end():], '%s->%s' % (o, a))
    for m in re.finditer(r'(?<![\w\'"\\.])(\d+)(?![\w.])', code):
        v = int(m.group(1))
        put(t[:m.start()] + str(v + 1) + t[m.end():], '%d->%d' % (v, v + 1))
        if v > 1: put(t[:m.start()] + str(v - 1) + t[m.end():], '%d->%d' % (v, v - 1))
    for m in re.finditer(r"0x[0-9A-Fa-f]+", code):
        put(t[:m.start()] + '0x%X' % (int(m.group(0), 16) ^ 1) + t[m.end():], 'hex^1')
    for m in re.finditer(r"'([^'\\])'", code):
        put(t[:m.start()] + "'%s'" % chr(ord(m.group(1)) ^ 1) + t[m.end():], 'char^1')
    s = code.strip()
    if s.endswith(';') and '(' in s + '=' and not re.match(r'(return|static|extern|int|char|unsigned|short|FILE|void|struct|else|for|while|do|case|default|goto|typedef)\b', s) and s.count('(') == s.count(')'):
        put(t[:len(t) - len(t.lstrip())] + ';', 'delete')
    m = re.search(r'\bif \((.*)\)\s*(\{)?$', code.rstrip())
    if m:
        put(t[:m.start()] + 'if (!(%s))%s' % (m.group(1), ' {' if m.group(2) else ''), 'negate')
random.Random(seed).shuffle(M)
surv = caught = err = 0
for i, new, why in M[:n]:
    d = '/tmp/amut%d' % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE + '/v0100', d + '/v0100', dirs_exist_ok=True)
    K = list(L)
    K[i] = new
    open(d + '/v0100/' + f, 'w', encoding='latin-1', newline='').write('\n'.join(K))
    rs = []
    for c in checks:
        r = subprocess.run(['timeout', os.environ.get('MT', '300'), 'python3', '/verif/check.py', c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/ev%d' % os.getpid()), capture_output=True, text=True)
        rs.append((c, r.returncode, (r.stdout + r.stderr).strip().split('\n')[0]))
        if r.returncode == 1:
            break
    st = 'CAUGHT' if any(x[1] == 1 for x in rs) else 'ERROR' if any(x[1] for x in rs) else 'SURVIVED'
    print('%s %s:%d %s | %s | %s' % (st, f, i + 1, why, new.strip(), '' if st == 'SURVIVED' else next((x[2] for x in rs if x[1]), '')[:160]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
