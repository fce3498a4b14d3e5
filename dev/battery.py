# compares the interpreter with CPython:  PYTHONPATH=/repo python3 dev/battery.py dev/battery/language.py  (run in /verif; prints only differences)
import sys; sys.path.insert(0,'.')
import ast, importlib.util, traceback
from absint.interp import *
from absint.core import *
from absint import interp, core
src=open(sys.argv[1]).read()
spec=importlib.util.spec_from_file_location('bat', sys.argv[1]); m=importlib.util.module_from_spec(spec); sys.modules['bat']=m
spec.loader.exec_module(m)
from checks.base import *
import checks.base as base
class C: pass
I=Interp('/repo')
ctx=C(); ctx.I=I
def top():
    return base.Ctx.client(ctx, src)
import inspect
res={}
def harness():
    env=base.Ctx.client(ctx,src)
    for k in list(env):
        if k.startswith('t') and k[1:].isdigit():
            # split list elements: run whole
            try:
                v=I.call(env[k],[],{})
                # wrap to str via engine
                s=[]
                for x in deref(v).items:
                    r=I.call(env['__r'],[x],{})
                    s.append(deref(r))
                res[k]=s
            except PyExc as e:
                res[k]='PyExc %s %s'%(e.obj.cls.name, show(e.obj.get('args')))
            except Incomplete as e:
                res[k]='INC '+str(e)
            except Exception as e:
                res[k]='CRASH '+traceback.format_exc()[-400:]
src+='\ndef __r(x): return repr(x)\n'
try:
    Explorer().run(harness)
except Exception as e:
    traceback.print_exc()
for k in sorted((k for k in dir(m) if k.startswith('t') and k[1:].isdigit()), key=lambda s:int(s[1:])):
    want=[repr(x) for x in getattr(m,k)()]
    got=res.get(k)
    if isinstance(got,list):
        for i,(a,b) in enumerate(zip(want,got)):
            if a!=b: print(k,i,'want',a[:150],'got',str(b)[:150])
        if len(want)!=len(got): print(k,'len')
    else: print(k,got)
