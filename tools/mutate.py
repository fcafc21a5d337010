#!/usr/bin/env python3
"""Sensitivity survey: mechanical mutants of /repo's sources in scratch copies. A mutant that compiles and passes the repository's
tests is run against the checks (reduced size). Usage: mutate.py SEED COUNT OUT.jsonl [file...]. Scratch: /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
MODEL = {
    'teds_vector.c': ['C01'], 'teds_deque.c': ['C01'], 'teds_immutablesequence.c': ['C01'], 'teds_lowmemoryvector.c': ['C02'], 'teds_intvector.c': ['C02', 'C06'],
    'teds_bitvector.c': ['C02'], 'teds_stricthashmap.c': ['C03'], 'teds_stricthashset.c': ['C03', 'C17'], 'teds_stricttreemap.c': ['C04'], 'teds_stricttreeset.c': ['C04'],
    'teds_strictheap.c': ['C05'], 'teds_strictsortedvectormap.c': ['C04', 'C06'], 'teds_strictsortedvectorset.c': ['C04', 'C06'], 'teds_immutablesortedstringset.c': ['C06'],
    'teds_immutableiterable.c': ['C14', 'C24'], 'teds_mutableiterable.c': ['C14', 'C15', 'C24'], 'teds_cachediterable.c': ['C16'], 'teds_emptycollection.c': ['C25'],
    'teds_bswap.h': ['C02', 'C06'], 'teds_intvector.h': ['C02'], 'teds_internaliterator.h': ['C11'], 'teds_mutableiterable.h': ['C15'], 'teds_serialize_util.h': ['C10'],
    'teds_stricthashmap.h': ['C03'], 'teds_stricthashset.h': ['C03'], 'teds_stricttreemap.h': ['C04'], 'teds_stricttreeset.h': ['C04'], 'teds_util.h': ['C01', 'C11'],
    'teds.h': ['C07', 'C08'], 'teds_vector.h': ['C01'],
    'teds.c': ['C17', 'C18', 'C07', 'C08'], 'teds_util.c': ['C01'],
}
REST = ['C24', 'C26', 'C11', 'C12', 'C13', 'C21', 'C20', 'C23', 'C09', 'C10', 'C22', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C07', 'C08', 'C25', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06']


def mutations(line):
    s = line.rstrip('\n')
    out = []
    code = s.split('//')[0]
    if re.match(r'\s*(/?\*|#|ZEND_ASSERT|static |const char|PHP_|ZEND_BEGIN|case |default:|\}|\{|$)', code) or 'ZEND_ASSERT' in code or 'teds_ce_' in code and 'handler' in code:
        return out
    for m in re.finditer(r'(?<![-<>=!])(<=|>=|<|>)(?![<>=])', code):
        if m.group(1) in '<>' and (code[m.start() - 1:m.start()] != ' '):
            continue
        r = {'<': '<=', '<=': '<', '>': '>=', '>=': '>'}[m.group(1)]
        out.append(code[:m.start()] + r + code[m.end():])
    for m in re.finditer(r' (==|!=) ', code):
        out.append(code[:m.start()] + (' != ' if m.group(1) == '==' else ' == ') + code[m.end():])
    for m in re.finditer(r' [-+] 1\b', code):
        out.append(code[:m.start()] + code[m.end():])
    for m in re.finditer(r' (&&|\|\|) ', code):
        out.append(code[:m.start()] + (' || ' if m.group(1) == '&&' else ' && ') + code[m.end():])
    for m in re.finditer(r'\b(true|false)\b', code):
        out.append(code[:m.start()] + ('false' if m.group(1) == 'true' else 'true') + code[m.end():])
    for m in re.finditer(r'>> (\d)|<< (\d)', code):
        d = int(m.group(1) or m.group(2))
        out.append(code[:m.start()] + m.group(0)[:3] + str(d + 1) + code[m.end():])
    for m in re.finditer(r'\+\+|--', code):
        if code.strip().startswith('for'):
            continue
        out.append(code[:m.start()] + ('--' if m.group(0) == '++' else '++') + code[m.end():])
    for m in re.finditer(r'\bif \((.*)\) \{$', code):
        out.append(code[:m.start(1)] + '0 && (' + m.group(1) + ')' + code[m.end(1):])
        out.append(code[:m.start(1)] + '1 || (' + m.group(1) + ')' + code[m.end(1):])
    if re.match(r'\s*[A-Za-z_(*].*;$', code) and not re.match(r'\s*(return|break|continue|goto|RETURN|const |uint|size_t|zval |zend_|bool |int |char |teds_\w+ \*|ZEND_PARSE|Z_PARAM|typedef)', code) \
            or re.match(r'\s*(zend_throw\w*|zend_hash\w*|zend_iterator\w*|zend_object_std\w*)\(.*;$', code):
        out.append(re.match(r'\s*', code).group(0) + ';')
    for m in re.finditer(r'\b(\d+)\b', code):
        if m.group(1) in ('0', '1', '2', '3', '4') and code[m.start() - 1] in ' ([' and '"' not in code:
            out.append(code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():])
    return [o for o in dict.fromkeys(out) if o.strip() != code.strip()]


def sites(files):
    r = []
    for f in files:
        lines = open(os.path.join(R, f)).read().split('\n')
        skip = 0
        infn = False
        for i, l in enumerate(lines):
            if l.startswith('#if') and ('ZEND_DEBUG' in l or '< 80300' in l or '< 80' in l):
                skip = 1
            elif l.startswith('#else') or l.startswith('#endif'):
                skip = 0
            if l.startswith('PHP_MINIT_FUNCTION'):
                break
            if skip or not l.startswith('\t'):
                continue
            for k, o in enumerate(mutations(l)):
                r.append((f, i, k))
    return r


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or sorted(f for f in MODEL)
    sys.argv = sys.argv[:1]
    sys.path.insert(0, V + '/tools')
    import seedlib as sl
    rnd = random.Random(seed)
    all_ = sites(files)
    rnd.shuffle(all_)
    done = tried = 0
    stat = lambda **k: open(out, 'a').write(json.dumps(k) + '\n')
    for f, i, k in all_:
        if done >= count:
            break
        tried += 1
        lines = open(os.path.join(sl.R, f)).read().split('\n')
        new = mutations(lines[i])[k]
        old = lines[i]
        lines[i] = new
        p = os.path.join(sl.R, f)
        rec = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'tried': tried}
        try:
            open(p, 'w').write('\n'.join(lines))
            try:
                if sl.tests(timeout=120):
                    continue
            except (subprocess.TimeoutExpired, OSError, ValueError):
                subprocess.run(['pkill', '-KILL', '-f', sl.B + '/repo'])
                continue
            done += 1
            order = MODEL[f] + [c for c in REST if c not in MODEL[f]]
            rec['killer'] = None
            t0 = time.time()
            for c in order:
                e = dict(sl.ENV, VERIF_SCALE=os.environ.get('MUT_SCALE', '0.06'), VERIF_SEED=str(seed))
                r = subprocess.run(['timeout', '300', 'python3', V + '/bin/check.py', c], cwd=V, env=e, capture_output=True, text=True)
                if r.returncode != 0:
                    rec['killer'] = c
                    rec['rc'] = r.returncode
                    m = [l for l in r.stdout.split('\n') if l.startswith('---')]
                    rec['msg'] = m[-1][:200] if m else r.stdout[-200:]
                    break
            rec['t'] = round(time.time() - t0, 1)
            stat(**rec)
        finally:
            subprocess.run(['git', '-C', sl.R, 'checkout', '--', '.'])


main()
