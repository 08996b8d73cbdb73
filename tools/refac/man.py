"""man.py FILE: each refactoring: {file, edits:[(old,new)], rules}. Reports rules not rc 0."""
import sys,os,shutil,subprocess,re
from concurrent.futures import ThreadPoolExecutor
ns={}; R=[]
def ref(name,file,*edits,rules=None): R.append((name,file,edits,rules))
exec(open(sys.argv[1]).read(),{'ref':ref})
want=sys.argv[2:]
allr=sorted(re.findall(r'c(\d\d)\.py',' '.join(os.listdir('/verif/sa/rules'))))
def go(r):
    name,file,edits,rules=r
    d='/tmp/w/man_'+name; shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git','build'))
    p=d+'/echidna/'+file; s=subprocess.run(['python3-vt','/verif/tools/strip.py',p],capture_output=True,text=True).stdout
    for o,n in edits:
        if s.count(o)<1: return name,['NOTFOUND '+o[:60]]
        s=s.replace(o,n,1)
    open(p,'w').write(s); out=[]
    for c in rules or allr:
        e='/tmp/w/ev_man_'+name; os.makedirs(e,exist_ok=True)
        q=subprocess.run(['python3-vt','/verif/check.py','--property','C'+c,'--tier','quick'],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE=e),cwd='/verif')
        if q.returncode:
            l=[x.strip()[:900] for x in q.stdout.splitlines()+q.stderr.splitlines() if re.search('violated|undecided |BROKEN|Error',x) and not x.startswith('property')]
            out.append('C%s rc=%d %s'%(c,q.returncode,' || '.join(l[:2])))
    shutil.rmtree(d)
    return name,out
sel=[r for r in R if not want or r[0] in want]
with ThreadPoolExecutor(7) as ex:
    for n,o in ex.map(go,sel):
        print(n,'quiet' if not o else '')
        for l in o: print('   ',l[:1200])
