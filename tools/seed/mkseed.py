#!/usr/bin/env python3
"""mkseed.py SPEC...: writes /verif/seeded/<id>/ from a spec file and verifies it.
A spec is a Python file defining id, prop, needs, breaks, edits [(file, old, new)...], demo (Go test source
without package/import of the helper), and optionally fakes=True, extra={name: content}, script (whole demo.sh)."""
import sys,os,subprocess,shutil,json,tempfile
V='/verif'; here=os.path.dirname(os.path.abspath(__file__))
def sh(cmd,cwd=None,t=900):
    try: return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout='TIMEOUT'; stderr=''
        return R
DEMO='''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
d=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd "$R" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
bash "$d/mkmod.sh" "$W" "$R" || exit 2
{ echo '{"Replace":{'; s=
  for f in $(cd "$d/src" && find . -name '*.go.txt'); do f=${f#./}; printf '%s"%s":"%s"' "$s" "$R/internal/zdemo/${f%.txt}" "$d/src/$f"; s=,; done
  echo '}}'; } > "$W/ov.json"
BINBUILD
go test RACEFLAG-vet=off -c -o "$W/t" -overlay "$W/ov.json" -modfile="$W/go.mod" ./internal/zdemo || exit 3
cd "$W" && ./t -test.timeout 240s
'''
def make(spec):
    ns={}; exec(open(spec).read(),ns)
    out=os.path.join(V,'seeded',ns['id']); shutil.rmtree(out,ignore_errors=True); os.makedirs(out+'/src')
    fakes=ns.get('fakes',False)
    h=open(here+'/helper.go.txt').read()
    if fakes:
        h=h.replace('FAKES_IMPORT','\t"github.com/takenet/deckard/internal/zdemo/fakemongo"\n\t"github.com/takenet/deckard/internal/zdemo/fakeredis"')
        h=h.replace('FAKES_FIELDS','\tredis *fakeredis.Cluster\n\tmongo *fakemongo.Server')
        h=h.replace('FAKES_REDIS','''	case 'r', 'c':
		n := 1
		if kind[0] == 'c' {
			n = 3
		}
		w.redis, err = fakeredis.Start(n)
		w.must(err)
		t.Cleanup(w.redis.Close)
		config.CacheUri.Set(w.redis.URI())
		config.RedisClusterMode.Set(n > 1)
		config.CachePrefix.Set("deckard")
		w.ca, err = cache.CreateCache(ctx, cache.REDIS)
		w.must(err)''')
        h=h.replace('FAKES_MONGO','''	case 'g':
		w.mongo, err = fakemongo.Start()
		w.must(err)
		t.Cleanup(w.mongo.Close)
		config.StorageUri.Set(w.mongo.URI())
		w.st, err = storage.CreateStorage(ctx, storage.MONGODB)
		w.must(err)''')
        for f in ('fakeredis','fakemongo'):
            os.makedirs(out+'/src/'+f)
            for g in os.listdir(V+'/harness/'+f):
                if g.endswith('.go'): shutil.copy(V+'/harness/'+f+'/'+g,out+'/src/'+f+'/'+g+'.txt')
    else:
        for k in ('IMPORT','FIELDS','REDIS','MONGO'): h=h.replace('FAKES_'+k+'\n','')
    if 'demo' in ns:
        open(out+'/src/helper_test.go.txt','w').write(h)
        if ns.get('bin'): open(out+'/src/boot_test.go.txt','w').write(open(here+'/boot.go.txt').read())
        if ns.get('chart'):
            open(out+'/src/chart_test.go.txt','w').write(open(here+'/chart.go.txt').read()); os.remove(out+'/src/helper_test.go.txt')
        open(out+'/src/demo_test.go.txt','w').write(ns['demo'].lstrip())
    for k,v in ns.get('extra',{}).items():
        os.makedirs(os.path.dirname(out+'/'+k),exist_ok=True); open(out+'/'+k,'w').write(v)
    shutil.copytree(V+'/stubs',out+'/stubs'); shutil.copy(V+'/mkmod.sh',out+'/mkmod.sh')
    open(out+'/demo.sh','w').write(ns.get('script',DEMO.replace('RACEFLAG','-race ' if ns.get('race') else '').replace('cd "$W" && ./t','cd "$W" && DEMO_REPO="$R" ./t' if ns.get('chart') else 'cd "$W" && ./t').replace('BINBUILD\n','go build -o "$W/deckard" -modfile="$W/go.mod" ./internal/cmd/deckard || exit 3\nexport DEMO_BIN="$W/deckard"\n' if ns.get('bin') else '')))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({"property":ns['prop'],"needs":ns['needs'],"what_it_breaks":ns['breaks']},open(out+'/meta.json','w'),indent=1)
    # patch
    d='/tmp/mkp'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call('cp -a /repo/. %s && git -C %s checkout -q -- .'%(d,d),shell=True)
    for f,a,b in ns['edits']:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
    open(out+'/patch.diff','wb').write(subprocess.check_output(['git','-C',d,'diff']))
    r=sh('. /opt/vp/env.sh; gofmt -l $(git diff --name-only)',d)
    if r.stdout.strip(): print('gofmt',r.stdout)
    # changed lines must be lines of the original repository
    base=subprocess.check_output("git -C /repo rev-list HEAD | tail -1",shell=True,text=True).strip()
    import re
    f=None; orig=0; own=0
    for l in open(out+'/patch.diff'):
        if l.startswith('--- '): f=l[6:].strip()
        mm=re.match(r'@@ -(\d+)',l)
        if mm: n=int(mm.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-l','-L%d,%d'%(n,n),'HEAD','--',f],text=True)
            if b.lstrip('^')[:35]==base[:35]: orig+=1
            else: own+=1
            n+=1
        elif l.startswith(' '): n+=1
    print('  lines of the original changed: %d, of own commits: %d'%(orig,own))
    if not orig: print('WARNING: no original line changed')
    # verify in a copied folder
    dd=tempfile.mkdtemp(); sh('cp -a %s/. %s && rm -f %s/*.diff %s/meta.json'%(out,dd,dd,dd))
    ok=True
    r=sh('bash %s/demo.sh'%dd,'/repo',300)
    if r.returncode!=0: ok=False; print('UNPATCHED DEMO FAILS',r.stdout[-1500:],r.stderr[-1500:])
    r=sh('bash %s/demo.sh'%dd,d,300)
    if r.returncode==0: ok=False; print('PATCHED DEMO PASSES')
    else: why=[l for l in (r.stdout+r.stderr).split('\n') if 'demo_test' in l or 'panic' in l or '.go:' in l][:2]; print('  fails with:',why)
    if r.returncode==3: ok=False; print('BUILD FAILED',r.stdout[-800:],r.stderr[-800:])
    shutil.rmtree(dd)
    # stable tests with the patch: fulltest on the copy (superset)
    r=sh('bash /tmp/fulltest.sh %s -short 2>&1 | grep -v "^ok\\|no test files"'%d)
    if r.stdout.strip(): print('TESTS?',r.stdout[:600])
    print(ns['id'],ns['prop'],'OK' if ok else 'BAD')
    return ok
if __name__=='__main__':
    for s in sys.argv[1:]: make(s)
