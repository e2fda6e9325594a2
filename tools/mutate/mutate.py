#!/usr/bin/env python3
"""Tries every mutant of mutgen against checks.

mutate.py OUT JOBS SECS PROPS FILES...   (files relative to /repo; env SAMPLE=n)

Each mutant is applied to a copy of /repo under /tmp. PROPS is a comma list in
the order they are tried; the first that reports a violation ends the mutant.
Survivors whose output on a corpus of schemas equals the original's are marked
"same output"."""
import hashlib, json, os, random, shutil, subprocess, sys, threading, queue
out, jobs, secs, props = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4].split(',')
files = sys.argv[5:]
REPO = os.environ.get('MREPO','/repo')
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', VSIM_VERIF='/verif', VSIM_KEEP='1', VERIF_SEED=os.environ.get('SEED','1'), GOMAXPROCS='2')
subprocess.run(['go','build','-o','/tmp/vsimbin.mut','./cmd/vsim'], cwd='/verif/go', env=env, check=True)
subprocess.run(['go','build','-o','/tmp/mutgen.bin',here+'/mutgen.go'], cwd='/tmp', env=env, check=True)
muts = [json.loads(l) for l in subprocess.run(['/tmp/mutgen.bin']+files, cwd=REPO, env=env, capture_output=True, text=True, check=True).stdout.splitlines()]
if os.environ.get('SAMPLE'):
    random.Random(7).shuffle(muts); muts = muts[:int(os.environ['SAMPLE'])]
corpus = os.environ.get('CORPUS', '/tmp/mutcorpus')
def finger(bin):
    h = hashlib.sha256()
    for d in sorted(os.listdir(corpus)):
        for t in ('go','java','dart','ts'):
            o = bin + '.out'
            shutil.rmtree(o, ignore_errors=True)
            try: p = subprocess.run([bin,'-i',corpus+'/'+d+'/.*.hbuf','-o',o,'-t',t,'-p','demo/'], capture_output=True, timeout=20)
            except subprocess.TimeoutExpired: h.update(b'timeout'); continue
            h.update(repr((d,t,p.returncode,p.stdout)).encode())
            for r,ds,fs in sorted(os.walk(o)):
                for f in sorted(fs):
                    h.update(f.encode()); h.update(open(os.path.join(r,f),'rb').read())
    shutil.rmtree(bin+'.out', ignore_errors=True)
    return h.hexdigest()
lock = threading.Lock(); fo = open(out,'a')
done = set()
try:
    for l in open(out):
        d = json.loads(l); done.add((d['file'],d['from'],d['op'],d['text']))
except Exception: pass
q = queue.Queue()
for m in muts:
    if (m['file'],m['from'],m['op'],m['text']) not in done: q.put(m)
base = None
def group(p):
    n = int(p[1:]); return 'race' if n in (8,9) else 'gen' if n < 10 else {10:'a',11:'a',12:'b',13:'b',14:'c',15:'c',16:'c',17:'d',18:'d',19:'e',20:'f',21:'e',23:'m',26:'t'}[n]
def work(k):
    w = '/tmp/mt_%d_%d' % (os.getpid(), k)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['cp','-a',REPO,w], check=True)
        subprocess.run(['git','checkout','-q','--','.'], cwd=w)
        p = w+'/'+m['file']; b = open(p,'rb').read()
        b = b[:m['from']] + m['text'].encode() + b[m['to']:]
        open(p,'wb').write(b)
        r = subprocess.run(['go','build','-o',w+'/hb','./cmd'], cwd=w, env=env, capture_output=True)
        res = None
        if r.returncode: res = 'no build'
        else:
            same = finger(w+'/hb') == base
            built = {}
            for prop in props:
                g = group(prop)
                if g not in built:
                    r = subprocess.run(['/tmp/vsimbin.mut','build',prop], env=dict(env,VSIM_REPO=w), capture_output=True, text=True)
                    h = (r.stdout.strip().splitlines() or [''])[-1]
                    if not h.startswith('/tmp/vsim-'):
                        res = 'caught '+prop+' build: '+(r.stdout+r.stderr)[-300:]; break
                    built[g] = h
                    if len(r.stdout.strip().splitlines()) > 1: res = 'caught '+prop+' static: '+r.stdout[:300]; break
                o = w+'.json'
                try:
                    r = subprocess.run([built[g],'worker','-prop',prop,'-seed',env['VERIF_SEED'],'-secs',secs,'-out',o], env=env, capture_output=True, text=True, timeout=300)
                    d = json.load(open(o)); os.remove(o)
                    if d['found']: res = 'caught '+prop+': '+d['found'][0]['key']; break
                except Exception as e:
                    res = 'caught '+prop+' trouble: '+repr(e)[:200]; break
            if res is None: res = 'SURVIVED' + (' same output' if same else ' OTHER OUTPUT')
            for h in built.values(): shutil.rmtree(os.path.dirname(h), ignore_errors=True)
        m['res'] = res
        with lock:
            fo.write(json.dumps(m)+'\n'); fo.flush()
subprocess.run(['go','build','-o','/tmp/mutbase.hb','./cmd'], cwd=REPO, env=env, check=True)
base = finger('/tmp/mutbase.hb')
ts = [threading.Thread(target=work,args=(k,)) for k in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(jobs): shutil.rmtree('/tmp/mt_%d_%d'%(os.getpid(),k), ignore_errors=True)
