"""Generates specification traces: quint run --mbt per profile, reduced to JSON lines.
usage: gen.py OUTDIR SEED N STEPS PROFILE..."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itf, model

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec', 'profiles')


def profiles():
    return sorted(f[:-4] for f in os.listdir(SPEC) if f.endswith('.qnt'))


def hid(seed, prof):
    h = 0
    for c in prof: h = (h * 131 + ord(c)) % 100003
    return seed * 100003 + h


def reduce_trace(name, path):
    states = itf.load(path)
    rules, codes = set(), set()
    batches, prevE, prevM = [], {}, {}
    for st in states:
        for x in st['batch']:
            v = x['op']['value']
            if x['op']['tag'] == 'CreateCodes': codes |= {c[0] for c in v['codes']}
            if x['op']['tag'] == 'CodesFromAlloc': codes |= set(v['codes'])
        E, M = model.expect(st['s'], st['seen'])
        rules |= {k[6:] for k in E if k.startswith('perms.')}
        steps = [model.step_json(x) for x in st['batch']]
        for x in steps[:-1]: x['quiet'] = True
        dE = {k: v for k, v in E.items() if k not in prevE or prevE[k] != v}
        dM = {k: str(v) for k, v in M.items() if k not in prevM or prevM[k] != v}
        gone = [k for k in prevE if k not in E] + [k for k in prevM if k not in M]
        prevE, prevM = E, M
        batches.append({'steps': steps, 'res': [[r['ok'], r['near'], r['gate'], list(r['out']), [[e['k'], list(e['t']), [str(x) for x in e['n']], [str(x) for x in e['m']]] for e in r['ev']]] for r in st['res']], 'E': dE, 'M': dM, 'gone': gone})
    return {'id': name, 'rules': sorted(rules), 'codes': sorted(codes), 'batches': batches}


def generate(outdir, seed, n, steps, prof):
    out = os.path.join(outdir, '%s-%d.jsonl' % (prof, seed))
    tmp = tempfile.mkdtemp(prefix='itf-')
    try:
        cmd = ['quint', 'run', '--mbt', '--out-itf', os.path.join(tmp, 'o_{seq}.itf.json'), '--n-traces', str(n), '--max-samples', str(n),
               '--max-steps', str(steps), '--seed', str(hid(seed, prof)), '--verbosity', '1', '--main', prof, '--invariant', 'safe', prof + '.qnt']
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        files = sorted((f for f in os.listdir(tmp) if f.endswith('.itf.json')), key=lambda f: int(re.findall(r'\d+', f)[0]))
        if r.returncode != 0: raise SystemExit('quint run failed for %s:\n%s' % (prof, r.stdout[-3000:]))
        with open(out + '.tmp', 'w') as o:
            for k, f in enumerate(files):
                o.write(json.dumps(reduce_trace('%s-%d-%d' % (prof, seed, k), os.path.join(tmp, f)), separators=(',', ':')) + '\n')
        os.replace(out + '.tmp', out)
        return out, len(files)
    finally:
        shutil.rmtree(tmp)


def main():
    outdir, seed, n, steps = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    which = sys.argv[5:] or profiles()
    os.makedirs(outdir, exist_ok=True)
    if len(which) == 1: print(*generate(outdir, seed, n, steps, which[0])); return
    # one process per profile: conversion is CPU bound
    def job(p):
        r = subprocess.run([sys.executable, os.path.abspath(__file__), outdir, str(seed), str(n), str(steps), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise SystemExit(r.stdout)
        return r.stdout.strip()
    with ThreadPoolExecutor(8) as ex:
        for line in ex.map(job, which): print(line, flush=True)


if __name__ == '__main__': main()
