import sys, os, time, fnmatch
if os.environ.get('PYTHONHASHSEED') != '0':      # same search order in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, vc, traceback
import multiprocessing as mp
def go(n):
    try:
        u=props.UNITS[n]; r=u.run()
        return n,u.wall,{k:[(x.name,x.ok,x.detail,x.loc) for x in v] for k,v in r.items()},u.assumptions,None
    except Exception as e:
        return n,0,{},set(),traceback.format_exc()
if __name__=='__main__':
    ns=[n for n in props.UNITS if any(fnmatch.fnmatch(n,p) for p in sys.argv[1:])]
    with mp.Pool(8, maxtasksperchild=1) as ex:
        for n,w,r,asm,err in ex.imap(go,ns):
            bad=[(k,x) for k,v in r.items() for x in v if not x[1]]
            print('%-20s %5.1fs  %d obligations %s %s'%(n,w,sum(len(v) for v in r.values()),'OK' if not bad and not err else 'FAIL', {k:len(v) for k,v in r.items()}))
            for k,x in bad[:int(os.environ.get('N','2'))]: print('    ',k,x[0],x[1],x[3],x[2][:int(os.environ.get('W','400'))])
            if err: print(err[-600:])
            if os.environ.get('A'): print('   ',asm)
