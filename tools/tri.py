import sys, json, collections
sys.path.insert(0,'/verif/driver')
import run, worlds
rows=[json.loads(l) for l in open(sys.argv[1])]
W={r['world']:r for r in rows if 'world' in r}
KR={'table':['lt_l','lt_l_open','lt_q','lt_mixed','res_l','res_S','sult','rec_l'],'select':['select_l','res_sel'],'cforce':['cforce','res_cf'],'beta':['uniform','beta','res_beta'],'makeham':['makeham']}
if len(sys.argv)>2: KR={k:[r for r in v if r in sys.argv[2].split(',')] for k,v in KR.items()}
bad=collections.defaultdict(list); tot=collections.Counter()
cache={}
for r in rows:
    if 'c' not in r: continue
    w=W[r['w']]
    for real in KR[w['kind']]:
        if real=='uniform' and float(w['alpha'])!=1: continue
        k=(r['w'],r['i'],real)
        try:
            if k not in cache: cache[k]=worlds.REALS[real](w).set_interest(i=float(r['i']))
            got=getattr(cache[k],r['c'])(**run.conv(r['a'])); err=''
        except Exception as e: got=None; err=type(e).__name__+str(e)[:60]
        tol={'x':1e-9}.get(r['tol'])
        if tol is None: tol=float(r['tol'])
        tot[real,r['c']]+=1
        if not run.close(got,float(r['e']),tol):
            bad[real,r['c'],err].append((r['w'],r['i'],r['a'],r['e'],got))
for k in sorted(bad): print(k, len(bad[k]),'/',tot[k[:2]], bad[k][0], bad[k][len(bad[k])//2])
