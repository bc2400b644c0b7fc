"""seed.py: make(id, property, edits, needs, breaks, main_go, lexer=True)"""
import os, subprocess, json, shutil, tempfile
def make(id, prop, edits, needs, breaks, main, lexer=True):
    d="/verif/seeded/"+id
    os.makedirs(d, exist_ok=True)
    tmp=tempfile.mkdtemp(prefix="mk-")
    subprocess.check_call(["git","clone","-q","/repo",tmp+"/r"])
    for f,old,new in edits:
        p=tmp+"/r/"+f; s=open(p).read()
        assert s.count(old)==1, (id, f, s.count(old), old)
        open(p,"w").write(s.replace(old,new))
    subprocess.check_call("gofmt -l $(git diff --name-only)", shell=True, cwd=tmp+"/r")
    diff=subprocess.check_output(["git","diff"],cwd=tmp+"/r").decode()
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(tmp)
    shutil.copy("/verif/tools/demo/demo.sh", d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    if lexer: shutil.copy("/verif/tools/demo/lex_main.go", d+"/lex.go")
    open(d+"/main.go","w").write(main)
    subprocess.call(["gofmt","-l",d+"/main.go"])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
