import sys, importlib, concurrent.futures as cf, os, json
sys.path.insert(0,'/tmp/seed')
import lib
from lib import *
for m in sys.argv[1].split(','): importlib.import_module(m)
only=sys.argv[3].split(',') if len(sys.argv)>3 else None
OUT='/tmp/seed/out'
sel=[b for b in BUGS if not only or b['id'] in only]
if 'make' in sys.argv[2]:
    def f(b):
        try: return b, make(b,OUT)
        except Exception as e: return b, repr(e)
    with cf.ThreadPoolExecutor(4) as ex:
        for b,e in ex.map(f, sel):
            b['err']=e
            print('%-34s %s %s'%(b['id'],b['prop'],'OK' if not e else 'BAD '+e),flush=True)
            if e: shutil.rmtree(OUT+'/'+b['id'],ignore_errors=True)
if 'check' in sys.argv[2]:
    for b in sel:
        if not os.path.isdir(OUT+'/'+b['id']): continue
        r=check(b,OUT)
        for p,(rc,o) in r.items():
            print('%-34s %s rc=%d %s'%(b['id'],p,rc,[l for l in o.splitlines() if 'case' in l or 'FAILS' in l][:2]),flush=True)
