'''worker.py PROP JOBINDEX OUTFILE: runs one job of one check in this process'''
import sys, os, importlib, traceback, json
prop, ijob, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
tier = os.environ.get('VERIF_TIER','quick'); seed = int(os.environ.get('VERIF_SEED','1'))
import vlib
mod = importlib.import_module(prop.lower())
job = mod.jobs(tier,seed)[ijob]
ctx = vlib.Ctx(prop,job,tier,seed,out)
import warnings; warnings.simplefilter('ignore')
import numpy as np; np.seterr(all='ignore'); np.random.seed(seed)
import mrcal
bd = os.environ['VERIF_BUILDDIR']
if not mrcal.__file__.startswith(bd):
    print('wrong mrcal imported: '+mrcal.__file__,file=sys.stderr); sys.exit(3)
try:
    mod.run(ctx,job)
except Exception as e:
    # The workloads use only calls that must work on this input
    tb = traceback.format_exc()
    last = traceback.extract_tb(e.__traceback__)
    inlib = any(fr.filename.startswith(bd) for fr in last)
    if not inlib and isinstance(e,(NameError,ImportError,AttributeError,OSError,SyntaxError,AssertionError,UnboundLocalError)):
        print(tb,file=sys.stderr); ctx.flush(); sys.exit(4)   # a problem of the harness
    where = next((f'{os.path.basename(fr.filename)}:{fr.name}' for fr in reversed(last) if fr.filename.startswith(bd)),None) or f'{last[-1].name}'
    ctx.violate(f'exception/{job["name"]}/{type(e).__name__}/{where}', f'unexpected {type(e).__name__}: {e}', traceback=tb[-3500:], inlib=inlib)
ctx.flush(done=True)
