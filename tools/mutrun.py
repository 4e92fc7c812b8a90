#!/usr/bin/env python3
"""Mutation study: mutrun.py survive OUT.jsonl PER_FUNC FILE...   mutants that build and pass the stable tests
                   mutrun.py check IN.jsonl OUT.jsonl PROP,PROP..|auto   runs the quick checks of the properties on each (stops at the first violation)"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
ENV = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', HOME='/root')
MAP = {'collections/string.go': 'C34 C10 C11 C12', 'collections/string_array.go': 'C34 C10', 'collections/string_util.go': 'C10 C12 C11 C41', 'collections/convert_data.go': 'C08 C09 C28 C20',
       'collections/dictionary.go': 'C09 C04 C05', 'collections/generic_list.go': 'C09 C01 C02', 'collections/utils.go': 'C17 C04 C09', 'collections/implementation/': 'C38 C01 C02 C03 C04 C05 C06 C09',
       'hcl/utilities.go': 'C18', 'hcl/hcl.go': 'C20 C18', 'json/json.go': 'C39 C19', 'xml/xml.go': 'C19', 'yaml/yaml.go': 'C39 C09', 'generated_impl': 'C01 C02 C03 C04 C09',
       'main.go': 'C35 C28 C27', 'context.go': 'C28', 'utilities.go': 'C27 C35', 'template/extra_data.go': 'C43 C41 C01 C02 C03 C04 C05 C07 C09 C17 C30 C35', 'template/slice.go': 'C07 C41', 'template/extra_math.go': 'C40 C13 C14 C15 C16',
       'template/math_': 'C40 C13 C14 C15 C16', 'template/extra_runtime.go': 'C37 C33 C31 C24', 'template/razor': 'C21 C22 C23 C24 C25 C29', 'template/template.go': 'C42 C24 C26 C31 C25 C29 C35',
       'template/template_error': 'C24', 'template/template_handler.go': 'C24 C25 C26 C31', 'template/template_process.go': 'C26 C27', 'template/func_table.go': 'C31', 'template/func_category.go': 'C31',
       'template/add_funcs.go': 'C42 C31', 'template/template_help.go': 'C31', 'template/generated_options.go': 'C31 C24', 'template/options.go': 'C31 C24', 'template/extra_sprig.go': 'C31 C17', 'template/extra_utils.go': 'C41 C10 C36',
       'template/extra_os.go': 'C36 C33', 'template/utils.go': 'C24', 'utils/io.go': 'C27', 'utils/substitute.go': 'C29', 'utils/list.go': 'C41 C05 C27', 'utils/exec.go': 'C33', 'utils/reflect.go': 'C17 C30'}
manifest = set(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks'])
def props(f):
    for k in sorted(MAP, key=len, reverse=True):
        if k in f: return [p for p in MAP[k].split() if p in manifest]
    return []
def copy(i):
    d = '/tmp/mutw/w%d' % i
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs('/tmp/mutw', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d
def apply(d, m):
    p = d + '/' + m['File']; t = open(p, 'rb').read()
    open(p, 'wb').write(t[:m['Start']] + m['Text'].encode() + t[m['End']:])
    return p, t
def survive(out, per, files):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    random.seed(int(os.environ.get('MUTSEED', '1'))); todo = []
    r = subprocess.run(['/tmp/mutbin/mutate'] + files, cwd='/repo', capture_output=True, text=True)
    by = {}
    for l in r.stdout.splitlines():
        m = json.loads(l); by.setdefault((m['File'], m['Func']), []).append(m)
    for v in by.values():
        random.shuffle(v); todo += v[:per]
    random.shuffle(todo)
    q = queue.Queue()
    for i in range(8): q.put(copy(i))
    o = open(out, 'a')
    def one(m):
        d = q.get()
        try:
            p, t = apply(d, m)
            try:
                pk = './' + os.path.dirname(m['File'])
                if subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True).returncode: return 'build'
                try: r = subprocess.run(['go', 'test', '-json', '-vet=off', '-timeout', '60s', './...'], cwd=d, env=ENV, capture_output=True, text=True, timeout=120)
                except subprocess.TimeoutExpired: return 'tests'
                passed = set()
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get('Test') and e['Action'] == 'pass': passed.add(e['Package'] + '/' + e['Test'])
                if stable - passed: return 'tests'
                o.write(json.dumps(m) + '\n'); o.flush()
                return 'survives'
            finally: open(p, 'wb').write(t)
        finally: q.put(d)
    cnt = {}
    with ThreadPoolExecutor(8) as ex:
        for k in ex.map(one, todo): cnt[k] = cnt.get(k, 0) + 1
    print(len(todo), cnt); shutil.rmtree('/tmp/mutw')
def check(inp, out, which):
    d = copy(9); done = set()
    if os.path.exists(out): done = set((m['File'], m['Start'], m['What']) for m in map(json.loads, open(out)))
    o = open(out, 'a')
    for m in map(json.loads, open(inp)):
        if (m['File'], m['Start'], m['What']) in done: continue
        ps = props(m['File']) if which == 'auto' else which.split(',')
        p, t = apply(d, m); m['res'] = {}; s = time.time()
        try:
            for pr in ps:
                r = subprocess.run(['python3', '/verif/check.py', pr, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick', VERIF_EVIDENCE='/tmp/mutev'), cwd='/verif', capture_output=True, text=True)
                m['res'][pr] = r.returncode
                if r.returncode == 1: break
        finally: open(p, 'wb').write(t)
        m['t'] = round(time.time() - s)
        o.write(json.dumps(m) + '\n'); o.flush()
        print('CAUGHT' if 1 in m['res'].values() else 'MISSED', m['File'], m['Line'], m['Func'], m['What'][:150].replace('\n', ' '), m['res'], m['t'], flush=True)
    shutil.rmtree(d)
if sys.argv[1] == 'survive': survive(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
else: check(sys.argv[2], sys.argv[3], sys.argv[4])
