#!/usr/bin/env python3
"""Mutation campaign (development tool, no check uses it).
mutate.py OUT.jsonl N_PER_FILE PROP...   Small edits of the anchored sources of each property, in scratch copies; each is
compiled into the property's harness and searched for a few seconds; survivors are built and run through the stable tests.
Result per mutant: same (no code change in the harness), nocompile, caught, tests (survived, but the tests catch it), SURVIVED."""
import sys, os, re, random, subprocess, json, shutil, threading, queue, hashlib
V='/verif'; REPO=os.environ.get('MUT_REPO','/repo'); W=int(os.environ.get('MUT_W','4')); T=os.environ.get('MUT_TIME','6')
H='include/bss-util/'
FILES={'C01':[H+'LocklessQueue.h'],'C02':[H+'LocklessQueue.h'],'C03':[H+'BlockAllocMT.h'],'C04':[H+'RingAlloc.h'],'C05':[H+'GreedyAlloc.h'],'C06':[H+'CacheAlloc.h'],'C07':[H+'RWLock.h'],'C08':[H+'RWLock.h'],
'C09':[H+'ThreadPool.h'],'C10':[H+'ThreadPool.h',H+'Thread.h'],'C11':[H+'lockless.h'],'C12':[H+'Thread.h'],'C13':[H+'Thread.h',H+'lockless.h'],'C14':['bss-util/HighPrecisionTimer.cpp',H+'HighPrecisionTimer.h'],'C15':[H+'Scheduler.h',H+'BinaryHeap.h'],
'C16':['bss-util/INIstorage.cpp','bss-util/INIsection.cpp','bss-util/INIParser.c'],'C17':['bss-util/INIParser.c','bss-util/INIstorage.cpp'],'C18':['bss-util/Logger.cpp',H+'Logger.h',H+'stream.h'],'C19':[H+'stream.h'],'C20':[H+'BitStream.h'],'C21':[H+'JSON.h',H+'Serializer.h'],'C22':['bss-util/XML.cpp',H+'XML.h'],'C23':[H+'Animation.h'],'C24':['bss-util/profiler.cpp',H+'Profiler.h'],'C25':[H+'RandomQueue.h',H+'algo.h',H+'XorshiftEngine.h',H+'AliasTable.h'],'C26':[H+'TOML.h'],
'C31':[H+x for x in('RefCounter.h','SmartPtr.h','Variant.h','Delegate.h','Singleton.h')],'C32':[H+x for x in('Graph.h','DisjointSet.h','Trie.h')],'C33':[H+x for x in('BlockAlloc.h','GreedyAlloc.h','GreedyBlockAlloc.h','CacheAlloc.h','RingAlloc.h','Alloc.h','BlockAllocMT.h')],
'C27':[H+x for x in('AVLTree.h','TRBtree.h','AATree.h','LinkedList.h','LLBase.h','Hash.h','KDTree.h')],'C28':[H+x for x in('DynArray.h','Array.h','ArrayCircular.h','ArraySort.h','Map.h','LinkedArray.h','CompactArray.h','Queue.h','Stack.h','BinaryHeap.h','PriorityQueue.h')],'C29':[H+'StringTable.h'],'C30':[H+'UBJSON.h','bss-util/UBJSON.cpp',H+'Variant.h']}
OPS=[(r'<=','<'),(r'>=','>'),(r'(?<![<\-=>])<(?![<=])(?=[^>]*[;)])',' <= '),(r'(?<![\-=>])>(?![>=])(?=[^<]*[;)])',' >= '),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'\+\+','--'),(r'--','++'),(r' \+ ',' - '),(r' - ',' + '),(r'\+=','-='),(r'-=','+='),(r'\b1\b','2'),(r'\b0\b','1'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\|=','&='),(r'&=','|='),(r'<<','>>'),(r'if\(!','if('),(r'if\((?!!|constexpr)','if(!('),(r'while\(!','while('),
 (r'^(\s*)(?!return|break|continue|case|default|typedef|using|static|template|const|auto|int|size_t|char|bool|Str|std|uint|friend|#|struct|class|enum|inline|BSS|operator|\}|\{|//|template)([A-Za-z_(*][^;{}]*;)\s*$',r'\1; '),(r'\bbreak;',';'),(r'\bcontinue;',';'),(r'memory_order_\w+','memory_order_relaxed'),(r'\bcompare_exchange_strong\b','compare_exchange_weak'),(r'\bbssmin\b','bssmax'),(r'\bbssmax\b','bssmin')]
def mutants(path, n, rnd):
    L=open(os.path.join(REPO,path),'rb').read().decode('latin-1').split('\n'); c=[]
    skip=False
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith(('//','#','template','using','typedef','/*','*')) or not s: continue
        if 'static_assert' in s: continue
        code=l.split('//')[0]
        for k,(a,b) in enumerate(OPS):
            for m in re.finditer(a,code):
                new=code[:m.start()]+m.expand(b)+code[m.end():]
                if b=='if(!(':
                    d=0
                    for j in range(m.end(),len(code)):
                        if code[j]=='(': d+=1
                        if code[j]==')':
                            if d==0: new=code[:m.start()]+'if(!('+code[m.end():j]+')'+code[j:]; break
                            d-=1
                    else: continue
                if new!=code: c.append((i,k,new))
    rnd.shuffle(c); seen={}; out=[]
    for x in c:
        if seen.get(x[0],0)>=2: continue
        seen[x[0]]=seen.get(x[0],0)+1; out.append(x)
        if len(out)>=n: break
    return L,out
def sh(c,to=None,**k):
    try: r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=to,**k); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return -9,'timeout'
def exehash(w,prop):
    import glob
    d=[x for x in glob.glob(w+'/verif/build/%s-*'%prop) if not '.tmp' in x]
    return [hashlib.sha256(open(x,'rb').read()).hexdigest() for x in sorted(glob.glob(d[0]+'/*'))] if d else None
def main():
    out=open(sys.argv[1],'a'); n=int(sys.argv[2]); props=sys.argv[3:]; rnd=random.Random(int(os.environ.get('MUT_SEED','1'))); q=queue.Queue(); lock=threading.Lock()
    for p in props:
        for f in FILES[p]:
            L,ms=mutants(f,n,rnd)
            for m in ms: q.put((p,f,L,m))
    print(q.qsize(),'mutants',flush=True)
    def work(i):
        w='/tmp/mw%d'%i; sh('rm -rf %s; mkdir -p %s; cp -a %s %s/repo; mkdir %s/verif; cp -a /verif/sim /verif/harness /verif/check.py /verif/props.py /verif/known-findings.txt %s/verif/'%(w,w,REPO,w,w,w))
        sh("sed -i 's/^NPROC = .*/NPROC = 2/' %s/verif/check.py"%w); base={}
        env=dict(os.environ,VERIF_DEV_REPO=w+'/repo',SIM_TIME=T)
        while True:
            try: p,f,L,(ln,k,new)=q.get_nowait()
            except queue.Empty: break
            if p not in base: sh('SIM_TIME=0.5 python3 %s/verif/check.py %s'%(w,p),env=dict(env,SIM_TIME='0.5')); base[p]=exehash(w,p)
            M=list(L); M[ln]=new; open(w+'/repo/'+f,'wb').write('\n'.join(M).encode('latin-1'))
            rc,o=sh('timeout 300 python3 %s/verif/check.py %s'%(w,p),env=env)
            if rc==2 or 'CHECK-ERROR' in o: res='nocompile' if 'compile' in o or 'link' in o else 'error'
            elif rc==1: res='caught'
            elif rc==0: res='same' if exehash(w,p)==base[p] else 'alive'
            else: res='timeout'
            if res=='alive':
                # stable tests need the shared /opt/vp build; done serially by --tests
                res='ALIVE'
            with lock: out.write(json.dumps(dict(prop=p,file=f,line=ln+1,old=L[ln].strip(),new=new.strip(),res=res,msg=o[-200:] if res in('error','timeout') else o[:150] if res=='caught' else ''))+'\n'); out.flush()
            open(w+'/repo/'+f,'wb').write('\n'.join(L).encode('latin-1'))
        shutil.rmtree(w,ignore_errors=True)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
