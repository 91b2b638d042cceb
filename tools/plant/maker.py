import os,sys,subprocess,shutil,json,re,concurrent.futures as cf
BUGS=[]
def bug(id,prop,edits,needs,what,body,imports=(),top=''):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,body=body,imports=list(imports),top=top))
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',CGO_ENABLED='1',GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
DEMO='''#!/bin/bash
# exit 0 when the property holds in the repository of the current directory
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo || exit 3
cd "$T" && timeout 120 ./demo
'''
def gosrc(b):
    imps=set(b['imports'])|{'fmt','os','time'}
    m='github.com/liujiangwei/xxcache'
    al={'cache':m+'/cache','redis':m+'/redis','xxcache':m,'rdb':m+'/redis/rdb','ziplist':m+'/redis/ziplist','zipmap':m+'/redis/zipmap','intset':m+'/redis/intset','lzf':m+'/redis/lzf','logrus':'github.com/sirupsen/logrus'}
    s='package main\n\nimport (\n'+''.join('\t"%s"\n'%al.get(i,i) for i in sorted(imps))+')\n\n'
    s+='''func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\\n", args...)
	os.Exit(1)
}

func init() {
	time.AfterFunc(90*time.Second, func() { fail("no answer in 90 s") })
}

'''
    s+=b['top'].strip('\n')+'\n\n' if b['top'] else ''
    s+='func main() {\n'+b['body'].strip('\n')+'\n\tfmt.Println("ok")\n}\n'
    return s
def sh(cmd,cwd,t=400):
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 99,'timeout'
STABLE=json.load(open('/opt/vp/BASELINE.json'))['stable']
def tests(cwd):
    rc,out=sh("go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vx 'github.com/liujiangwei/xxcache')",cwd)
    ok=set()
    for l in out.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
    return [t for t in STABLE if t not in ok]
def one(b,check=True):
    log=[]
    W='/tmp/plant/w_'+b['id']
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',W])
    out='/verif/seeded/'+b['id']
    tmpo='/tmp/plant/o_'+b['id']
    shutil.rmtree(tmpo,ignore_errors=True); os.makedirs(tmpo)
    res='?'
    try:
        open(tmpo+'/main.go','w').write(gosrc(b))
        open(tmpo+'/demo.sh','w').write(DEMO); os.chmod(tmpo+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(tmpo+'/meta.json','w'),indent=1)
        sh('gofmt -w main.go',tmpo)
        rc,o=sh('bash '+tmpo+'/demo.sh',W)
        if rc!=0: return b,'DEMO FAILS ON CLEAN',o[-1500:]
        orig=0
        for f,old,new in b['edits']:
            s=open(W+'/'+f).read()
            if s.count(old)!=1: return b,'EDIT matches %d'%s.count(old),f+old
            open(W+'/'+f,'w').write(s.replace(old,new))
        # original lines touched
        d=subprocess.run(['git','diff','-U0'],cwd=W,stdout=subprocess.PIPE,text=True).stdout
        f=None; tot=0
        for l in d.splitlines():
            if l.startswith('--- a/'): f=l[6:]
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m and f:
                a=int(m.group(1)); n=int(m.group(2) or 1)
                for i in range(a,a+n):
                    x=subprocess.run(['git','blame','-s','-L',f'{i},{i}','HEAD','--',f],cwd=W,stdout=subprocess.PIPE,text=True).stdout
                    tot+=1; orig+=x.startswith('^')
        rc,o=sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...',W)
        if rc!=0: return b,'NO BUILD',o
        ft=tests(W)
        if ft: return b,'TESTS FAIL',str(ft)
        rc,o=sh('bash '+tmpo+'/demo.sh',W)
        if rc in (0,3): return b,'DEMO PASSES/BROKEN rc=%d'%rc,o[-1500:]
        log.append('orig %d/%d'%(orig,tot)); log.append(o.strip().splitlines()[-1][:150] if o.strip() else '')
        diff=subprocess.run(['git','diff'],cwd=W,stdout=subprocess.PIPE,text=True).stdout
        open(tmpo+'/patch.diff','w').write(diff)
        shutil.rmtree(out,ignore_errors=True); shutil.copytree(tmpo,out)
        if check:
            p=subprocess.run('VERIF_REPO=%s bash /verif/check.sh %s'%(W,b['prop']),shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
            log.append('check rc=%d %s'%(p.returncode,' | '.join(l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'FAIL' in l)[:300]))
            open('/tmp/plant/log_'+b['id'],'w').write(p.stdout)
            res='CAUGHT' if p.returncode==1 else 'MISSED'
        return b,res,' ; '.join(log)
    finally:
        shutil.rmtree(W,ignore_errors=True); shutil.rmtree(tmpo,ignore_errors=True)
def main(argv):
    sel=[b for b in BUGS if not argv or b['id'] in argv]
    with cf.ThreadPoolExecutor(2) as ex:
        for b,r,l in ex.map(one,sel):
            print(b['id'],b['prop'],r,'::',l,flush=True)
