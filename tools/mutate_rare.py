#!/usr/bin/env python3
"""Sensitivity survey with rare triggers (a statement or condition that fails for certain sizes, types or live iterators): mutants of /repo's sources in scratch copies. A mutant that compiles and passes the repository's
tests is run against the checks (reduced size). Usage: mutate.py SEED COUNT OUT.jsonl [file...]. Scratch: /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
MODEL = {
    'teds_vector.c': ['C01'], 'teds_deque.c': ['C01'], 'teds_immutablesequence.c': ['C01'], 'teds_lowmemoryvector.c': ['C02'], 'teds_intvector.c': ['C02', 'C06'],
    'teds_bitvector.c': ['C02'], 'teds_stricthashmap.c': ['C03'], 'teds_stricthashset.c': ['C03', 'C17'], 'teds_stricttreemap.c': ['C04'], 'teds_stricttreeset.c': ['C04'],
    'teds_strictheap.c': ['C05'], 'teds_strictsortedvectormap.c': ['C04', 'C06'], 'teds_strictsortedvectorset.c': ['C04', 'C06'], 'teds_immutablesortedstringset.c': ['C06'],
    'teds_immutableiterable.c': ['C14', 'C24'], 'teds_mutableiterable.c': ['C14', 'C15', 'C24'], 'teds_cachediterable.c': ['C16'], 'teds_emptycollection.c': ['C25'],
    'teds_bswap.h': ['C02', 'C06'], 'teds_intvector.h': ['C02'], 'teds_internaliterator.h': ['C11'], 'teds_mutableiterable.h': ['C15'], 'teds_serialize_util.h': ['C10'],
    'teds_stricthashmap.h': ['C03'], 'teds_stricthashset.h': ['C03'], 'teds_stricttreemap.h': ['C04'], 'teds_stricttreeset.h': ['C04'], 'teds_util.h': ['C01', 'C11'],
    'teds.h': ['C07', 'C08'], 'teds_vector.h': ['C01'],
    'teds.c': ['C17', 'C18', 'C07', 'C08'], 'teds_util.c': ['C01'],
}
REST = ['C11', 'C12', 'C24', 'C20', 'C09', 'C13', 'C21']


def conds(fn):
    """Rarely false conditions on what is in scope in the function (text fn)."""
    out = []
    for e in ('array->size', 'intern->array.size', 'array->nNumOfElements', 'intern->array.nNumOfElements', 'array->bit_size', 'intern->array.bit_size', 'intern->array.nodes.nNumOfElements', 'tree->nNumOfElements', 'ht->nNumOfElements'):
        if e in fn:
            out += ['%s != 17' % e, '%s < 24' % e, '(%s & 15) != 9' % e, '%s < 100' % e, '%s != 1' % e, '(%s & (%s - 1)) != 0' % (e, e)]
            break
    for e in ('array->active_iterators.first', 'intern->array.active_iterators.first', 'tree->active_iterators.first'):
        if e in fn:
            out += ['!%s' % e, '!(%s && %s->next)' % (e, e)] * 2
            break
    for v in dict.fromkeys(re.findall(r'zval \*(?:const |restrict )?(\w+)\b', fn)):
        if v in ('return_value', 'tmp', 'object', 'entries', 'end', 'begin', 'raw_val'):
            continue
        out += ['Z_TYPE_P(%s) != IS_%s' % (v, ty) for ty in ('DOUBLE', 'NULL', 'TRUE', 'OBJECT', 'ARRAY')]
        out += ['!(Z_TYPE_P(%s) == IS_LONG && Z_LVAL_P(%s) < -70000)' % (v, v), '!(Z_TYPE_P(%s) == IS_STRING && Z_STRLEN_P(%s) > 9)' % (v, v)]
    for v in dict.fromkeys(re.findall(r'zend_long (?:const )?(\w+)\b', fn)):
        out += ['%s != 0' % v, '%s > -129' % v, '%s < 40' % v]
    for v in dict.fromkeys(re.findall(r'(?:size_t|uint32_t) (?:const )?(size|offset|capacity|i|len|argc|idx|n)\b', fn)):
        out += ['%s != 0' % v, '%s < 33' % v, '%s != 8' % v]
    return out


def mutate(line, c):
    code = line.split('//')[0].rstrip()
    out = []
    m = re.search(r'\bif \((.*)\) \{$', code)
    if m:
        out.append(code[:m.start(1)] + '(' + m.group(1) + ') && ' + c + code[m.end(1):])
        out.append(code[:m.start(1)] + '(' + m.group(1) + ') || !(' + c + ')' + code[m.end(1):])
    elif re.match(r'\s*[A-Za-z_(*].*;$', code) and not re.match(r'\s*(return|break|continue|goto|RETURN|ZEND|Z_PARAM|typedef|const |static |extern |else|for|while|zval |zend_long |uint\w+ |size_t |bool |int |char |void |teds_\w+ \*?\w+( =|;))', code) and 'ASSERT' not in code:
        out.append(re.match(r'\s*', code).group(0) + 'if (' + c + ') { ' + code.strip() + ' }')
    return out


def sites(files, rnd):
    r = []
    for f in files:
        lines = open(os.path.join(R, f)).read().split('\n')
        skip = 0
        start = 0
        for i, l in enumerate(lines):
            if l and not l[0].isspace() and l[0] not in '#/{}*' and '(' in l:
                start = i
            if l.startswith('#if') and ('ZEND_DEBUG' in l or '< 80300' in l or '< 80' in l):
                skip = 1
            elif l.startswith('#else') or l.startswith('#endif'):
                skip = 0
            if l.startswith('PHP_MINIT_FUNCTION'):
                break
            if skip or not l.startswith('\t') or l.rstrip().endswith('\\'):
                continue
            cs = conds('\n'.join(lines[start:i]))
            if cs and 'DEREF' not in l:
                ms = mutate(l, rnd.choice(cs))
                if ms:
                    r.append((f, i, rnd.choice(ms)))
    return r


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or sorted(f for f in MODEL)
    sys.argv = sys.argv[:1]
    sys.path.insert(0, V + '/tools')
    import seedlib as sl
    rnd = random.Random(seed)
    all_ = sites(files, rnd)
    rnd.shuffle(all_)
    done = tried = 0
    stat = lambda **k: open(out, 'a').write(json.dumps(k) + '\n')
    for f, i, new in all_:
        if done >= count:
            break
        tried += 1
        lines = open(os.path.join(sl.R, f)).read().split('\n')
        old = lines[i]
        lines[i] = new
        p = os.path.join(sl.R, f)
        rec = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'tried': tried}
        try:
            open(p, 'w').write('\n'.join(lines))
            try:
                if sl.tests(timeout=120):
                    continue
            except (subprocess.TimeoutExpired, OSError, ValueError):
                subprocess.run(['pkill', '-KILL', '-f', sl.B + '/repo'])
                continue
            done += 1
            order = MODEL[f] + [c for c in REST if c not in MODEL[f]]
            rec['killer'] = None
            t0 = time.time()
            for c in order:
                e = dict(sl.ENV, VERIF_SCALE=os.environ.get('MUT_SCALE', '0.06'), VERIF_SEED=str(seed))
                r = subprocess.run(['timeout', '300', 'python3', V + '/bin/check.py', c], cwd=V, env=e, capture_output=True, text=True)
                if r.returncode != 0:
                    rec['killer'] = c
                    rec['rc'] = r.returncode
                    m = [l for l in r.stdout.split('\n') if l.startswith('---')]
                    rec['msg'] = m[-1][:200] if m else r.stdout[-200:]
                    break
            rec['t'] = round(time.time() - t0, 1)
            stat(**rec)
        finally:
            subprocess.run(['git', '-C', sl.R, 'checkout', '--', '.'])


main()
