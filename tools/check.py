#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : deterministic-simulation check of one property.
   check.py --replay FILE                     : replays a saved failing run (exit 1 if it reproduces).
Exit 0: the property held on every simulated run.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import json, os, subprocess, sys, time, signal, struct, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, STUBS
VERIF=build.VERIF
W=int(os.environ.get('DLBSIM_WORKERS','8'))
KNOWN=os.path.join(VERIF,'known-findings.txt')

def known(prop):
    r={}
    for l in open(KNOWN):
        l=l.strip()
        if not l.startswith('known: '): continue
        f=l[7:].split(' ',2)
        kv=dict(x.split('=',1) for x in f[:2])
        if kv['property']==prop: r[kv['class']]=f[2]
    return r
def sh(args,timeout):
    try: p=subprocess.run(args,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout,errors='replace'); return p.returncode,p.stdout,p.stderr
    except subprocess.TimeoutExpired as e: return -999,'',''
def replay(sim,libs,f,log='0'):
    rp=dict(l.split(' ',1) for l in open(f).read().split('\n') if ' ' in l)
    if rp.get('class','').startswith('harness-crash'):
        rc,o,e=sh([sim,'--libs',libs,'--mode','one','--scenario',rp['scenario'],'--prop',rp['property'],'--seed',rp['seed']],300)
        sys.stdout.write(o+e); print('REPLAY property=%s class=%s reproduced=%d'%(rp['property'],rp['class'],rc in (78,79))); return 1 if rc in (78,79) else 0
    rc,o,e=sh([sim,'--libs',libs,'--mode','replay','--file',f,'--log',log],300)
    sys.stdout.write(o+e); return rc

def main():
    a=sys.argv[1:]
    if a and a[0]=='--replay':
        sim,libs=build.build(); sys.exit(replay(sim,libs,a[1],'1'))
    prop=a[0]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in a: tier=a[a.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1')); cfg=PROPS[prop]; t0=time.time()
    ev=os.path.join(VERIF,'evidence',prop+'.json'); os.makedirs(os.path.dirname(ev),exist_ok=True)
    if os.path.exists(ev): os.unlink(ev)
    sim,libs=build.build(); tb=time.time()-t0
    rdir=os.path.join(VERIF,'replays',prop); os.makedirs(rdir,exist_ok=True)
    for f in os.listdir(rdir): os.unlink(os.path.join(rdir,f))
    kn=known(prop); n=cfg['quick'] if tier=='quick' else cfg.get('thorough',cfg['quick']*30); n=int(n*float(os.environ.get('DLBSIM_SCALE','1')))
    cap=150 if tier=='quick' else int(os.environ.get('DLBSIM_CAP','1500'))
    print(f'check {prop} tier={tier} seed={seed} runs={n} scenarios={cfg["mix"]} build={tb:.1f}s',flush=True)
    common=['--libs',libs,'--scenario',cfg['mix'],'--prop',prop,'--base',str(seed),'--known',','.join(kn),'--replay-dir',rdir,'--stop','1','--minbudget','20']
    tmp=tempfile.mkdtemp(prefix='dlbsim-'); viols=[]; stats=[]; crashes=[]; broken=[]
    def spawn(w,frm): 
        out=open(f'{tmp}/o{w}.{frm}','w+')
        p=subprocess.Popen([sim,*common,'--mode','run','--from',str(frm),'--to',str(n),'--step',str(W),'--cap',str(cap-(time.time()-t0-tb)),'--ilv',f'{tmp}/ilv{w}'],stdout=out,stderr=subprocess.STDOUT)
        return dict(p=p,out=out,w=w,frm=frm,pos=0)
    live=[spawn(w,w) for w in range(W)]; deadline=None; ncrash=0
    while live:
        time.sleep(0.05)
        for x in list(live):
            x['out'].flush(); fd=open(x['out'].name,errors='replace'); fd.seek(x['pos']); chunk=fd.read(); nl=chunk.rfind('\n'); chunk=chunk[:nl+1]; x['pos']+=len(chunk.encode(errors='replace')); fd.close()
            done=x['p'].poll()
            for l in chunk.split('\n'):
                if l.startswith('{'):
                    try: d=json.loads(l)
                    except Exception: continue
                    (viols if d['t']=='viol' else stats).append(d)
                elif l.startswith('SIMCRASH'): crashes.append(l)
            if done is not None and nl<len(chunk)-1 or done is not None:
                live.remove(x)
                if done in (78,79) and ncrash<40:
                    ncrash+=1
                    m=[c for c in crashes if ' seed=' in c]; 
                    # confirm in a fresh process
                    if m:
                        kv=dict(t.split('=',1) for t in m[-1].split() if '=' in t); f=f'{rdir}/{prop}-harness-crash-{kv["seed"]}.replay'
                        open(f,'w').write(f'dlbsim-replay 1\nproperty {prop}\nscenario {kv["scenario"]}\nseed {kv["seed"]}\nclass harness-crash\nmessage {m[-1]}\nend\n')
                        rc,o,e=sh([sim,'--libs',libs,'--mode','one','--scenario',kv['scenario'],'--prop',prop,'--seed',kv['seed']],200)
                        if rc==done: viols.append(dict(t='viol',seed=int(kv['seed']),scenario=kv['scenario'],cls='harness-crash',msg=('the code under test never returns' if done==78 else 'the code under test destroyed memory of the simulator')+': '+m[-1],deterministic=1,replay_ok=1,replay_hash_match=1,file=f,sched0=0,sched=0,faults=0,skipped_ops=0,tries=0))
                        else: broken.append('simulator crashed but not reproducibly: '+m[-1])
                    else: broken.append(f'worker ended with {done} without a report')
                elif done not in (0,-9,-15): broken.append(f'worker ended with status {done}: '+open(x["out"].name,errors='replace').read()[-400:])
        if viols and deadline is None: deadline=time.time()+25
        if deadline and time.time()>deadline:
            for x in live: x['p'].kill(); 
            for x in live: x['p'].wait()
            live=[]
        if time.time()-t0-tb>cap+120:
            for x in live: x['p'].kill(); x['p'].wait()
            broken.append('workers did not finish'); live=[]
    for f in os.listdir(tmp): pass
    # determinism: a sample of the same seeds again in two other processes
    det=0; dmis=0
    if not viols:
        k=min(n,cfg.get('det',120)); hs=[]
        ps=[subprocess.Popen([sim,*common[:-4],'--mode','run','--from','0','--to',str(k),'--step','1','--cap','60','--hashes','1'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True) for _ in range(2)]
        for p in ps:
            o=p.communicate()[0]; hs.append(dict(l.split() for l in o.split('\n') if l.count(' ')==1 and l[0].isdigit()))
        both=set(hs[0])&set(hs[1]); det=len(both); dmis=sum(hs[0][i]!=hs[1][i] for i in both)
        if dmis: broken.append(f'nondeterminism: {dmis} of {det} sampled seeds gave different histories')
    # gate every violation: deterministic, replayable, and reproduced in a fresh process
    good=[]
    for v in viols:
        if not(v['deterministic'] and v['replay_ok']): broken.append('violation not reproducible: '+json.dumps(v)[:400]); continue
        if v['cls']!='harness-crash':
            rc,o,e=sh([sim,'--libs',libs,'--mode','replay','--file',v['file'],'--log','0'],120)
            if rc!=1: broken.append('replay file does not reproduce in a fresh process: '+v['file']+' '+o[-300:]); continue
        good.append(v)
    tot={k:sum(s[k] for s in stats) for k in ('runs','nontrivial','steps','switches','sim_ns','ops')} if stats else dict(runs=0,nontrivial=0,steps=0,switches=0,sim_ns=0,ops=0)
    def merge(k):
        m={}
        for s in stats:
            for a_,b_ in s[k].items(): m[a_]=m.get(a_,0)+b_
        return m
    ilv=set()
    for w in range(W):
        f=f'{tmp}/ilv{w}'
        if os.path.exists(f): b=open(f,'rb').read(); ilv.update(struct.unpack('<%dQ'%(len(b)//8),b[:len(b)//8*8]))
    wall=time.time()-t0; rw=max(wall-tb,0.001); kh=merge('known')
    samples=[x for s in stats for x in s['samples']][:6] or [dict(seed=v['seed'],scenario=v['scenario'],violation=v['cls']) for v in viols[:3]]
    probes=merge('probes'); other={k:v for k,v in probes.items() if k.startswith('other_violation_')}; probes={k:v for k,v in probes.items() if k not in other}
    e=dict(property=prop,tier=tier,seed=seed,level='exploration',wall_s=round(wall,2),violations=len(good),
      coverage=dict(evaluations=tot['runs'],distinct_nontrivial=len(ilv),rule='One evaluation is one simulated execution of the scenario mix '+cfg['mix']+' with the schedule, the operations, the configuration, the delays and the faults drawn from a hash of (VERIF_SEED, property, run index). '+cfg.get('rule','It is non-trivial when the concurrent phase really interleaved (more than 10 context switches) and every oracle of the scenario was evaluated; two are distinct when the hash of the sequence of context switches (task switched to, and the point it was at) differs.'),
        samples=samples,simulated_runs_per_hour=int(tot['runs']/rw*3600),seeds_per_hour=int(tot['runs']/rw*3600),simulated_seconds=round(tot['sim_ns']/1e9,3),scheduling_points=tot['steps'],context_switches=tot['switches'],operations=tot['ops'],
        faults_injected=merge('fired'),rare_conditions_reached=probes,run_endings=merge('ends'),scenarios=merge('scenarios'),interleaving_measure='hash of the sequence of (task, location) context switches',
        real_components=cfg.get('real',[]),stub_components=STUBS,determinism_sample=dict(seeds=det,mismatches=dmis),known_findings_hit=kh,violations_of_other_properties_seen=other),
      assumptions=cfg.get('assume',[]))
    json.dump(e,open(ev,'w'),indent=1)
    for f in os.listdir(tmp): os.unlink(os.path.join(tmp,f))
    os.rmdir(tmp)
    for c,d in kn.items(): print(f'KNOWN-FINDING: property={prop} class={c} ({kh.get(c,0)} runs) {d}')
    seen=set()
    for v in good:
        if v['cls'] in seen: continue
        seen.add(v['cls']); print(f"violation [{v['cls']}] seed={v['seed']} scenario={v['scenario']}: {v['msg']} (decisions {v['sched0']} -> {v['sched']}, {v['faults']} faults, {v['tries']} minimisation runs)"); print(f"VIOLATION property={prop} replay={v['file']}")
    print(f"{prop}: {tot['runs']} runs, {len(ilv)} distinct interleavings, {tot['steps']} scheduling points, {wall:.1f}s, violations={len(seen)}")
    if seen: sys.exit(1)
    if broken:
        for b in broken: print('CHECK-BROKEN '+b)
        sys.exit(2)
    if not tot['runs']: print('CHECK-BROKEN nothing was run'); sys.exit(2)
    sys.exit(0)
main()
