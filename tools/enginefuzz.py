"""enginefuzz.py SEED [COUNT]: a self-test of the analyser, not of the repository.
Random functions (integers of every width, optional FLOAT=1 / MEM=1) are compiled and run; for arguments that are
known or within a small range, the analyser must not refute what the program does (FALSE ALARM) and must not prove
what it does not do (UNSOUND). V=1 prints where known arguments were not enough for a proof."""
import tempfile,shutil,random,sys,subprocess,json,os
seed=int(sys.argv[1]); N=int(sys.argv[2]) if len(sys.argv)>2 else 60
R=random.Random(seed); D=tempfile.mkdtemp(prefix='fz%d.'%seed)
IT={'signed char':8,'unsigned char':-8,'short':16,'unsigned short':-16,'int':32,'unsigned int':-32,'long':64,'unsigned long':-64,'bool':-1}
FL=os.environ.get('FLOAT')
TY=list(IT)+(['double','float'] if FL else [])
def isf(t): return t in('double','float')
def cst(t):
    if isf(t): return R.choice(['0.0','1.0','-1.5','3.25','1e10','-7.0','0.1','100.0'])
    if t=='bool': return R.choice(['true','false'])
    b=abs(IT[t]); s=IT[t]>0
    v=R.choice([0,1,2,3,7,10,15,16,31,100,127,128,255,-1,-2,-128,1000,(1<<(b-1))-1,-(1<<(b-1)),R.randrange(-(1<<(b-1)),1<<(b-1))])
    return '((%s)%sLL)'%(t,v if v>-(1<<63) else '(-9223372036854775807LL-1)')if v!=-(1<<63) else '((%s)(-9223372036854775807LL-1))'%t
def ex(vs,d,want=None):
    # returns (text,type)
    if d<=0 or R.random()<.12:
        if R.random()<.75:
            n,t=R.choice(vs); return n,t
        t=R.choice(TY); return cst(t),t
    k=R.random()
    if k<.28:
        t=R.choice(TY); e,u=ex(vs,d-1)
        if isf(u) and not isf(t): return '(%s)SAFE(%s)'%(t,e),t
        return '((%s)(%s))'%(t,e),t
    if k<.36:
        e,u=ex(vs,d-1); op=R.choice(['-','~','!']) 
        if isf(u): op='-'
        if op=='!': return '(!(%s))'%e,'bool'
        if u=='bool': return '((int)(%s))'%e,'int'
        return '((%s)(%s(%s)))'%(u,op,e),u
    if k<.44:
        c,_=cond(vs,d-1); a,t=ex(vs,d-1); b,u=ex(vs,d-1)
        if isf(u) and not isf(t): b='SAFE(%s)'%b
        return '((%s)?(%s)(%s):(%s)(%s))'%(c,t,a,t,b),t
    a,t=ex(vs,d-1); b,u=ex(vs,d-1)
    if isf(t) or isf(u):
        op=R.choice('+-*'); 
        if R.random()<.2: return '((double)(%s) / NZ((double)(%s)))'%(a,b),'double'
        return '((double)(%s) %s (double)(%s))'%(a,op,b),'double'
    if R.random()<.25: return cond(vs,d-1)
    rt=R.choice(['int','unsigned int','long','unsigned long'])
    op=R.choice(['+','-','*','/','%','&','|','^','<<','>>','+','-','*','/','%','&','>>'])
    if op in '/%':
        if R.random()<.7: dv=R.choice(['2','3','7','10','16','-3','60','256','1000']); dv='(%s)%s'%(rt,dv)
        else: dv='NZI<%s>((%s)(%s))'%(rt,rt,b)
        return '((%s)(%s) %s %s)'%(rt,a,op,dv),rt
    if R.random()<.08: return '((%s)%s %s (int)((%s) & %d))'%(rt,R.choice(['1','3','100','(%s)'%a]),R.choice(['<<','>>']),b,R.choice([7,15,31])),rt
    if op in('<<','>>'):
        return '((%s)(%s) %s %d)'%(rt,a,op,R.choice([0,1,3,4,7,8,15,16,24,31])),rt
    if op in '&|^' and R.random()<.6: b=R.choice(['0xf','0xff','0xf0','0x7fffffff','1','~7','0xffff0000','-1','63']); 
    return '((%s)(%s) %s (%s)(%s))'%(rt,a,op,rt,b),rt
def cond(vs,d):
    a,t=ex(vs,d-1)
    if R.random()<.6: b=cst(t)
    else:
        b,u=ex(vs,d-1); b='(%s)%s(%s)'%(t,'SAFE' if isf(u) and not isf(t) else '',b)
    c='((%s) %s (%s))'%(a,R.choice(['<','<=','>','>=','==','!=']),b)
    if d>1 and R.random()<.2: c='(%s %s %s)'%(c,R.choice(['&&','||']),cond(vs,d-1)[0])
    return c,'bool'
def asg(n,t,vs,d):
    e,u=ex(vs,d)
    return '%s = (%s)%s(%s);'%(n,t,'SAFE' if isf(u) and not isf(t) else '',e)
MEM=os.environ.get('MEM')
def ix(vs): 
    return R.choice(['(int)((%s) & 7)'%R.choice([x for x in vs if not isf(x[1])])[0],'%d'%R.randrange(8),'%d'%R.randrange(8)])
def memstm(vs,mut,d,ind):
    k=R.random(); n,t=R.choice(mut)
    if k<.3: return ind+'t[%s] = (short)(%s);\n'%(ix(vs),ex(vs,1)[0])
    if k<.5: return ind+'%s = (%s)t[%s];\n'%(n,t,ix(vs))
    if k<.6: return ind+'memmove(t + %d, t + %d, %d);\n'%(R.randrange(0,4),R.randrange(0,4),R.randrange(0,9))
    if k<.65: return ind+'memset((char*)t + %d, %d, %d);\n'%(R.randrange(0,8),R.choice([0,0,1,255]),R.randrange(0,8))
    if k<.7: return ind+'wmemset(w, (wchar_t)(%s), 3);\n'%(R.choice([x for x in vs])[0])
    if k<.75: return ind+'w[%d] = (wchar_t)(%s);\n'%(R.randrange(7),R.choice(vs)[0])
    if k<.8: return ind+'%s = (%s)wcslen(w);\n'%(n,t)
    if k<.84: return ind+'%s = (%s)(wcscmp(w, L"\\1\\1") > 0);\n'%(n,t)
    if k<.88: return ind+'%s = (%s)(memcmp(t, t + 4, %d) == 0);\n'%(n,t,R.randrange(1,9))
    if k<.92: return ind+'{ short* p = t; while (*p && p < t + 7) ++p; %s = (%s)(p - t); }\n'%(n,t)
    if k<.95: return ind+'{ const wchar_t* p = wcschr(w, (wchar_t)(%s)); %s = (%s)(p ? p - w : -1); }\n'%(R.choice(vs)[0],n,t)
    i='i%d'%R.randrange(10**6)
    return ind+'for (int %s = 0; %s < %s; ++%s) {\n'%(i,i,ix(vs),i)+ind+'\tt[%s] = (short)(%s);\n'%(i,ex(vs+[(i,'int')],1)[0])+ind+'}\n'
def stm(vs,mut,d,ind='\t'):
    k=R.random(); n,t=R.choice(mut)
    if MEM and R.random()<.5: return memstm(vs,mut,d,ind)
    if k<.5 or d<=0: return ind+asg(n,t,vs,2)+'\n'
    if k<.7:
        s=ind+'if (%s) {\n'%cond(vs,2)[0]+blk(vs,mut,d-1,ind+'\t')+ind+'}'
        if R.random()<.5: s+=' else {\n'+blk(vs,mut,d-1,ind+'\t')+ind+'}'
        return s+'\n'
    if k<.85:
        i='i%d'%R.randrange(10**6)
        return ind+'for (int %s = 0; %s < %d; ++%s) {\n'%(i,i,R.choice([1,2,3,5,9]),i)+blk(vs+[(i,'int')],mut,d-1,ind+'\t')+ind+'}\n'
    if k<.93:
        w=R.choice(['unsigned char','short','unsigned int','signed char','unsigned short']); o=R.randrange(0,8)
        sz=abs(IT[w])//8; o=o//sz*sz
        if R.random()<.5: return ind+'*(%s*)(m + %d) = (%s)SAFE(%s);\n'%(w,o,w,ex(vs,2)[0]) if FL else ind+'*(%s*)(m + %d) = (%s)(%s);\n'%(w,o,w,ex(vs,2)[0])
        return ind+'%s = (%s)*(%s*)(m + %d);\n'%(n,t,w,o)
    s=ind+'switch ((int)%s(%s) & 7) {\n'%('SAFE' if FL else '',ex(vs,1)[0])
    for c in R.sample(range(8),3): s+=ind+'case %d: '%c+asg(n,t,vs,1)+(' break;' if R.random()<.8 else '')+'\n'
    return s+ind+'default: '+asg(n,t,vs,1)+'\n'+ind+'}\n'
def blk(vs,mut,d,ind): return ''.join(stm(vs,mut,d,ind) for _ in range(R.randrange(1,4)))
src='''#include <cmath>
#include <cstring>
#include <cwchar>
template<class T> T NZI(T x) { return x == 0 || x == (T)-1 ? (T)3 : x; }
static inline double NZ(double x) { return x == 0 ? 3 : x; }
template<class T> inline long SAFE(T x) { return (long)x; }
template<> inline long SAFE<double>(double x) { return x > -1000000 && x < 1000000 ? (long)x : 77; }
template<> inline long SAFE<float>(float x) { return x > -1000000 && x < 1000000 ? (long)x : 78; }
template<> inline long SAFE<unsigned long>(unsigned long x) { return (long)x; }
'''
P=['signed char','unsigned char','short','unsigned short','int','unsigned int','long','unsigned long']
fs=[]
for i in range(N):
    ps=[(R.choice(P),'a'),(R.choice(P),'b')]
    lt=[(R.choice(TY),'v%d'%j) for j in range(3)]
    vs=[(n,t) for t,n in ps]+[(n,t) for t,n in lt]
    mut=[(n,t) for t,n in lt]
    body='\tunsigned char m[8] __attribute__((aligned(8))) = {0};\n\t*(long*)m = (long)(%s);\n'%ps[0][1]+('\tshort t[16] = {1, 2, 3, 0, 5, 6};\n\twchar_t w[9] = L"\\1\\2ab";\n' if MEM else '')
    ini=[(n,t) for t,n in ps]
    for t,n in lt:
        body+='\t%s '%t+asg(n,t,ini,2)+'\n'; ini.append((n,t))
    for _ in range(R.randrange(2,6)): body+=stm(vs,mut,2)
    body+='\tlong r = (long)%s(%s);\n\treturn r;\n'%('SAFE' if FL else '',ex(vs,2)[0])
    nm='Fz%04d'%i; fs.append((nm,ps))
    src+='long %s(%s) {\n%s}\n'%(nm,', '.join('%s %s'%p for p in ps),body)
open(D+'/f.cpp','w').write(src)
def pick(t):
    b=abs(IT[t]); s=IT[t]>0; lo,hi=(-(1<<(b-1)),(1<<(b-1))-1) if s else (0,(1<<b)-1)
    v=R.choice([0,1,2,5,9,10,100,127,128,200,255,256,-1,-3,-100,lo,hi,lo+1,hi-1,R.randrange(lo,hi+1),R.randrange(lo,hi+1)])
    return v if lo<=v<=hi else R.randrange(lo,hi+1)
# canonical = signed value
def canon(t,v): 
    b=abs(IT[t]); v&=(1<<b)-1
    return v
cases=[]
main='#include <cstdio>\n#include "f.cpp"\nint main() {\n'
def lit(t,v): return '(%s)%dULL'%(t,v&((1<<64)-1))
for nm,ps in fs:
    for c in range(4):
        a,b=pick(ps[0][0]),pick(ps[1][0]); cases.append((nm,ps,'c',a,b))
        main+='\tprintf("%%ld\\n", %s(%s, %s));\n'%(nm,lit(ps[0][0],a),lit(ps[1][0],b))
    for c in range(3):
        a,b=pick(ps[0][0]),pick(ps[1][0]); w=R.choice([1,3,20])
        bb=abs(IT[ps[0][0]]); s=IT[ps[0][0]]>0; lo,hi=(-(1<<(bb-1)),(1<<(bb-1))-1) if s else (0,(1<<bb)-1)
        l,h=max(lo,a-w),min(hi,a+w)
        cases.append((nm,ps,'r',l,h,b))
        for x in range(l,h+1): main+='\tprintf("%%ld ", %s(%s, %s));\n'%(nm,lit(ps[0][0],x),lit(ps[1][0],b))
        main+='\tprintf("\\n");\n'
main+='}\n'
open(D+'/m.cpp','w').write(main)
F='-std=gnu++11 -w -O0 -Xclang -disable-O0-optnone -fwrapv -ffp-contract=off'.split()
subprocess.check_call(['clang++-18']+F+[D+'/m.cpp','-o',D+'/m'])
subprocess.check_call(['clang++-18']+F+['-g','-fstandalone-debug','-emit-llvm','-c',D+'/f.cpp','-o',D+'/f0.bc'])
subprocess.check_call(['opt-18','-passes=function(sroa)',D+'/f0.bc','-o',D+'/f.bc'])
out=subprocess.run([D+'/m'],capture_output=True,text=True).stdout.split('\n')
S={}
k=0; tag=0
spec=''; exp={}
for cs,o in zip(cases,out):
    nm,ps=cs[0],cs[1]; sig='%s(%s)'%(nm,', '.join(p[0] for p in ps)); tag+=1
    if cs[2]=='c':
        spec+='fn %s #c%d\nif $1 == %d, $2 == %d => returns, ret == %s\n'%(sig,tag,cs[3],cs[4],o.strip())
    else:
        vs=[int(x) for x in o.split()]
        pre='$1 >= %d, $1 <= %d, $2 == %d'%(cs[3],cs[4],cs[5])
        spec+='fn %s #b%d\nif %s => returns, ret >= %d, ret <= %d\n'%(sig,tag,pre,min(vs),max(vs))
        v=R.choice(vs)
        spec+='fn %s #n%d\nif %s => returns, ret != %d\n'%(sig,tag,pre,v)
    exp[tag]=cs
open(D+'/s.spec','w').write(spec)
import re,concurrent.futures as cf
ns=[re.sub(r'\s','',l[3:]) for l in spec.split('\n') if l.startswith('fn ')]
def run(n):
    p=subprocess.run(['env','SPEC_STRICT=1',os.environ.get('BIN',os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'build/absint')),D+'/f.bc','--run','--spec='+D+'/s.spec','--time=5']+n,capture_output=True,text=True)
    return [json.loads(l) for l in p.stdout.splitlines()],p.stderr[-300:]
st={'c-ok':0,'c-fail':0,'b-ok':0,'b-unsure':0,'n-ok':0,'other':0}
with cf.ThreadPoolExecutor(8) as x:
    for rs,er in x.map(run,[ns[i::16] for i in range(16)]):
        if er: print('ERR',er)
        for r in rs:
            if 'sig' not in r: continue
            m=re.search(r'#([cbn])(\d+)',r['entry'])
            if not m: print(r); continue
            sure=any(a.get('sure') for a in r['alarms'])
            if r['status']!='ok': st['other']+=1; continue
            if m[1]!='n' and sure: print('FALSE ALARM',D,r['entry'],[a['msg'] for a in r['alarms'] if a.get('sure')][:1])
            if m[1]=='n' and not r['alarms']: print('UNSOUND',D,r['entry'])
            if m[1]=='c' and r['alarms'] and os.environ.get('V'): print('IMPR',r['entry'],r['alarms'][0]['msg'][:120],r['alarms'][0].get('why',''))
            if m[1]=='c': st['c-fail' if r['alarms'] else 'c-ok']+=1
            elif m[1]=='b': st['b-unsure' if r['alarms'] else 'b-ok']+=1
            else: st['n-ok']+=1
print(seed,st)
if not os.environ.get('KEEP'): shutil.rmtree(D)
