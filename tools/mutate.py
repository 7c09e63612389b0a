#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS HOURS [file-regex]: looks for gaps in the checks.
Makes one small change at a time in a scratch copy of /repo, keeps those that still pass the repository's tests, and
runs the relevant checks on them. Survivors are listed in /tmp/mut/survivors.WORKER for a look by eye."""
import os,re,sys,random,subprocess,time,shutil,glob
W,N,H=int(sys.argv[1]),int(sys.argv[2]),float(sys.argv[3]); pat=re.compile(sys.argv[4] if len(sys.argv)>4 else '.')
D=f'/tmp/mut/w{W}'; R=D+'/repo'; V=D+'/verif'
CH={'CanService.cpp':'C11 C12 C24 C07 C18','CanService.h':'C11','CanServiceWithDiagnostics.cpp':'C18 C11','CircularBuffer.h':'C13 C12','Configuration.cpp':'C01 C09 C25 C06 C10 C27 C03 C04 C21 C19 C20',
'Configuration.h':'C01 C09','Controller.cpp':'C12 C18 C01 C08 C24 C21 C23 C06','Controller.h':'C01 C18','EventConsumerService.cpp':'C03 C23 C24','EventConsumerServiceWithDiagnostics.cpp':'C03 C18 C23',
'EventProducerService.cpp':'C04 C05 C24 C23','EventProducerServiceWithDiagnostics.cpp':'C18 C04','EventTeachingService.cpp':'C01 C02 C06 C19 C07 C10','EventTeachingServiceWithDiagnostics.cpp':'C18 C01',
'GridConnect.cpp':'C16 C17','LED.cpp':'C22','LEDUserInterface.cpp':'C22','Switch.cpp':'C22','LongMessageService.cpp':'C14 C15 C24 C19','MinimumNodeService.cpp':'C08 C18 C21 C07 C25 C09 C24 C06 C10','MinimumNodeServiceWithDiagnostics.cpp':'C18',
'NodeVariableService.cpp':'C06 C07 C19 C10','Parameters.cpp':'C18','Parameters.h':'C18','SerialGC.cpp':'C17','SerialUserInterface.cpp':'C27','CAN2515.cpp':'C26','CAN2515.h':'C26','EepromExternalStorage.cpp':'C20','EepromInternalStorage.cpp':'C20','FlashStorage.cpp':'C20','DueEepromEmulationStorage.cpp':'C20','Service.cpp':'C18','Service.h':'C18','ConsumeOwnEventsService.h':'C23','Storage.h':'C20','LongMessageService.h':'C15 C14','VlcbCommon.cpp':'C01'}
def sh(c,t=900,**k):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace',**k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c,124,'timeout')
MK='''S:=$(wildcard repo/src/*.cpp)
TS:=$(filter-out %/x,$(shell grep -o 'test/[A-Za-z0-9_]*\\.cpp' repo/CMakeLists.txt)) $(shell grep -o 'src/[A-Za-z0-9_]*\\.cpp' repo/CMakeLists.txt | grep -v "CAN2515\\|/LED\\|Switch\\|CreateDefault\\|Due\\|Eeprom\\|Flash\\|SerialUser\\|SerialGC")
O:=$(TS:%.cpp=t/%.o)
t/all: $(O)
	g++ -o $@ $^
t/%.o: repo/%.cpp
	@mkdir -p $(@D)
	g++ -std=gnu++11 -O0 -w -Irepo/src -Irepo/Arduino -Irepo/test -MMD -MP -c $< -o $@
-include $(O:.o=.d)
'''
def setup():
    if os.path.isdir(R): return
    os.makedirs(D,exist_ok=True)
    sh(f'git -C /repo worktree list >/dev/null; mkdir -p {R} && git -C /repo archive HEAD | tar -x -C {R}')
    sh(f'mkdir -p {V} && git -C /verif archive HEAD | tar -x -C {V} && mkdir -p {V}/out {V}/evidence')
    open(D+'/Makefile','w').write(MK)
    r=sh(f'make -s -C {D} -j4 t/all && {D}/t/all',cwd=D); assert r.returncode==0,r.stdout[-2000:]
    for c in sorted(set(' '.join(CH.values()).split())):
        r=sh(f'REPO={R} make -j4 -s build/{c}' if c not in('C16','C17','C19') else f'REPO={R} ./run.sh {c} --only none',cwd=V); assert r.returncode==0,(c,r.stdout[-1000:])
def mutants(f,text):
    out=[]; lines=text.split('\n'); incomment=False
    for i,l in enumerate(lines):
        s=l.strip(); code=l.split('//')[0]
        if '/*' in l: incomment=True
        if incomment:
            if '*/' in l: incomment=False
            continue
        if not code.strip() or s.startswith('#') or 'DEBUG' in s or 'static_assert' in s or s.startswith('case ') and False: continue
        def m(new,why): 
            if new!=code: out.append((i,new,why))
        for a,b in (('==','!='),('!=','=='),('<=','<'),('>=','>'),('&&','||'),('||','&&'),(' + ',' - '),(' - ',' + '),('++','--'),('--','++'),('true','false'),('false','true'),(' % ',' / '),('|=','='),('&','|'),('+=','-='),('<<','>>'),('>>','<<')):
            for x in re.finditer(re.escape(a),code):
                p=x.start()
                if a in('&',) and (code[p-1:p]=='&' or code[p+1:p+2] in '&' or not re.match(r' ',code[p-1:p]) or not re.match(r' ',code[p+1:p+2])): continue
                if a in('<<','>>') and ('Serial' in code or 'endl' in code): continue
                m(code[:p]+b+code[p+len(a):],a+'->'+b)
        for x in re.finditer(r'(?<![<>=!-])([<>])(?![<>=])',code):
            if '#include' in code or 'template' in code or '_cast' in code or '->' in code[x.start()-1:x.end()]: continue
            m(code[:x.end()]+'='+code[x.end():],x[1]+'->'+x[1]+'=')
        for x in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',code):
            v=int(x[1],0); m(code[:x.start()]+str(v+1)+code[x.end():],'const+1')
            if v>0: m(code[:x.start()]+str(v-1)+code[x.end():],'const-1')
        for x in re.finditer(r'!(?!=)',code): m(code[:x.start()]+code[x.end():],'drop !')
        x=re.match(r'^(\s*(?:else )?(?:if|while) \()(.*)(\)\s*\{?\s*)$',code)
        if x: m(x[1]+'!('+x[2]+')'+x[3],'negate'); m(x[1]+'false && ('+x[2]+')'+x[3],'never'); m(x[1]+'true || ('+x[2]+')'+x[3],'always')
        if re.match(r'^\s*[\w\->.\[\]() ]+(\(.*\)|[+|&-]?=[^=].*|\+\+|--);\s*$',code) and not re.match(r'^\s*(return|const|static|unsigned|int|byte|bool|char|auto|for)\b',code) or s.startswith('break;'):
            m(re.match(r'^\s*',code)[0]+';','delete')
    return [(f,)+x for x in out]
def main():
    setup(); random.seed(int(os.environ.get('MSEED','7'))); allm=[]
    for p in sorted(glob.glob(R+'/src/*.cpp')+glob.glob(R+'/src/*.h')):
        f=os.path.basename(p)
        if f in CH and pat.search(f): allm+=mutants(f,open(p).read())
    random.shuffle(allm); print(len(allm),'mutants'); end=time.time()+H*3600
    cnt=dict(build=0,tests=0,killed=0,survived=0)
    for k,(f,i,new,why) in enumerate(allm):
        if k%N!=W: continue
        if time.time()>end: break
        p=R+'/src/'+f; old=open(p).read(); L=old.split('\n'); orig=L[i]; L[i]=new; open(p,'w').write('\n'.join(L))
        try:
            r=sh(f'make -s -C {D} -j4 t/all',cwd=D)
            if r.returncode: cnt['build']+=1; continue
            r=sh('ulimit -v 4000000; '+D+'/t/all',20,cwd=D)
            if r.returncode: cnt['tests']+=1; continue
            hit=None; t0=time.time(); odd=''
            for c in CH[f].split():
                r=sh(f'REPO={R} VERIF_SEED=1 VERIF_TIER=quick ./run.sh {c}',300,cwd=V)
                if r.returncode==1: hit=c; break
                if r.returncode==3 and 'build of' in r.stdout: hit='build'; break
                if r.returncode: odd+=f' {c}:{r.returncode}:'+r.stdout[-300:].replace('\n','|')
            d=f'{f}:{i+1} [{why}] {orig.strip()}  =>  {new.strip()}'
            if hit: cnt['killed' if hit!='build' else 'build']+=1; open(f'/tmp/mut/killed.{W}','a').write(f'{hit} {time.time()-t0:.0f}s {d}\n')
            else: cnt['survived']+=1; open(f'/tmp/mut/survivors.{W}','a').write(f'{d}   {odd}\n')
        finally: open(p,'w').write(old)
        open(f'/tmp/mut/status.{W}','w').write(f'{k}/{len(allm)} {cnt}\n')
main()
