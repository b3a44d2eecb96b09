property="C11"
needs="one run with two commands of the same language, the first with :filter set"
breaks="a filtered command changes what a later command of the same language generates"
edits=[("src/vxlisp/lang.go","""	pkgs := ListPackageFromProject(project)
	for _, pkg := range pkgs {
		iscontinue := true
		if len(lang.filewhitelist) > 0 {
""","""	if command.filter != "" {
		pkgname := command.filter[0:strings.LastIndex(command.filter, "/")]
		lang.filewhitelist = append(lang.filewhitelist, pkgname)
	}
	pkgs := ListPackageFromProject(project)
	for _, pkg := range pkgs {
		iscontinue := true
		if len(lang.filewhitelist) > 0 {
""")]
demo=r'''
python3 - "$p/project.vxlisp" <<'X'
import sys
f=sys.argv[1]; s=open(f).read()
s=s.replace(" :cmds\n"," :cmds\n  (cmd onejava\n   :code   :test\n   :lang   :java\n   :filter vx/sample/myfunc\n   :path   ../one/java/src/test/java\n   :context vx/translation/en/context-test\n   :doc    \"One\")\n",1)
open(f,"w").write(s)
X
vx testjava || { cat "$w/out.txt"; exit 3; }
mv "$w/build" "$w/alone"
vx onejava testjava || { cat "$w/out.txt"; exit 3; }
diff -r "$w/alone" "$w/build" > "$w/d.txt" || { head -5 "$w/d.txt"; exit 1; }
'''
