#!/usr/bin/env python3
"""development helper: devrun.py PATTERN [symex options]: run the jobs whose name contains PATTERN, replay natively"""
import functools; print=functools.partial(print,flush=True)
import sys,subprocess,json,os,glob,shutil,collections,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B=os.environ.get('SYMEX_BUILD',V+'/.build')
nat=B+'/nat/native/harness'
jobs=[json.loads(l) for l in subprocess.run([nat,'list'],capture_output=True,text=True).stdout.splitlines()]
pats=sys.argv[1].split(',')
J=[j for j in jobs if any(p in j['name'] for p in pats)]
byname={j['name']:j for j in J}
for j in (J if '--each' not in sys.argv else J):
    pass
extra=[a for a in sys.argv[2:] if a!='--each']
groups=[[j] for j in J] if '--each' in sys.argv else [J]
for G in groups:
    o='/tmp/devrun'; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+'/jobs','w').write(''.join(f"{j['name']} h_entry 1 {j['h']} {j['t']}\n" for j in G))
    t=time.time()
    r=subprocess.run([B+"/engine/release/symex",'--ll',B+'/all.ll','--jobs',o+'/jobs','--procs','8','--out',o]+(extra if '--deadline' in extra else extra+['--deadline','90']),capture_output=True,text=True)
    print(','.join(j['name'] for j in G)[:100],r.stdout.strip(),r.stderr[-500:])
    c=collections.Counter(); recs=[]
    for f in glob.glob(o+'/res.*.jsonl'):
        for l in open(f):
            try: d=json.loads(l)
            except Exception: print('bad line',l[:200]); continue
            if d['t']=='stats':
                for k,v in d.items():
                    if isinstance(v,int): c[k]+=v
            else: recs.append(d)
    print({k:c[k] for k in('steps','forks','pruned','queries','sat','unsat','unknown','solver_ms','asserts','assert_queries','concretized')})
    pj=collections.Counter(d['job'] for d in recs if d['t']=='path'); print(dict(pj))
    msgs=collections.Counter((d['t'],d['job'],d.get('msg','')[:200]) for d in recs if d['t']!='path')
    for k,v in msgs.most_common(12): print('  ',v,k)
    # replay
    R=[d for d in recs if 'bytes' in d]
    if len(R)>4000: R=[d for d in R if d['t']!='path'][:500]+[d for d in R if d['t']=='path'][::len(R)//4000+1]
    inp=''.join(f"{byname[d['job']]['h']} {byname[d['job']]['t']} {d['bytes']}\n" for d in R)
    t1=time.time()
    p=subprocess.run([nat,'replay','--show'],input=inp,capture_output=True,text=True)
    outs=[json.loads(l) for l in p.stdout.split('\n') if l]
    bad=collections.Counter()
    cov=collections.defaultdict(int)
    seen=set()
    for d,q in zip(R,outs):
        if d['t']=='path':
            cov[d['job']]|=int(d['covers'],16)
            if q['status']!='ok' or q['outs']!=d['outs'] or int(q['covers'],16)!=int(d['covers'],16):
                bad[d['job']]+=1
                if bad[d['job']]<3: print('MISMATCH',d['job'],d['bytes'],q['status'],q['msg'],d['outs'],q['outs'],d['covers'],q['covers'],q['notes'])
        else:
            k=(d['job'],d['msg'],q['msg'])
            if k in seen: continue
            seen.add(k)
            print(d['t'],d['job'],'engine:',d.get('kind'),d['msg'][:150],'| native:',q['status'],q['msg'][:200],q['notes'])
            if '-s' in sys.argv: print(d['stack'])
    if len(outs)!=len(R): print('REPLAY CRASH at',R[len(outs)],p.stderr[-300:])
    print('covers',{k:bin(v) for k,v in cov.items()},'replay',round(time.time()-t1,1),'s','total',round(time.time()-t,1))
