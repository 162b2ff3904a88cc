import sys, json, importlib.util, os, signal, traceback
drv,inf,outf,percase = sys.argv[1:5]
class CaseTimeout(BaseException): pass
def _alarm(*a): raise CaseTimeout()
signal.signal(signal.SIGALRM,_alarm)
sys.path.insert(0,os.path.dirname(drv))
spec=importlib.util.spec_from_file_location('drv',drv)
m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
with open(outf,'w') as o:
    for line in open(inf):
        i,c=json.loads(line)
        o.write(json.dumps(['b',i])+'\n'); o.flush()
        # a hang inside C code is not interruptible by a python handler: let the default action kill us a bit later
        signal.alarm(int(percase))
        try: r=m.run(c)
        except CaseTimeout: r={'crash':'timeout'}
        except Exception as e:
            r={'crash':'exception','log':''.join(traceback.format_exception(e))[-900:]}
        signal.alarm(0)
        o.write(json.dumps(['r',i,r])+'\n'); o.flush()
