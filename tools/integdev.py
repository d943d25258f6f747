import sys,time
sys.path.insert(0,'/verif/lib')
import vp, integ
import absint as A
js=[j for j in integ.jobs() if (len(sys.argv)<2 or any(a in j.w for a in sys.argv[1:])) and not j.ref]
M=vp.build_ir(integ.witness(js),"integ")
def one(a):
    j,sgn=a
    t=time.time(); out=[]
    try:
        mon=integ.Mon(j,sgn).run(M)
        mon.evset=set(mon.it.events)
        for r in integ.evaluate(mon):
            if r[3]: out.append('   BAD %s %s %s %d\n        %s'%(r[0],r[1],r[2],r[4],r[3][0][:900]))
    except Exception as e:
        import traceback; out.append(traceback.format_exc()[-600:])
    return '%s %d obl %d %.1f\n%s'%(j.label(),sgn,len(mon.obl) if 'mon' in dir() else -1,time.time()-t,'\n'.join(out))
for r in vp.pmap(one,[(j,s) for j in js for s in (1,-1)]): print(r)
