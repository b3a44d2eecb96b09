property="C17"
needs="a command whose :main names a function of a package that does not exist, which no test has"
breaks="the compiler follows a missing package and stops with a nil access instead of reporting the name"
edits=[("src/vxlisp/project.go",'''			pkg, ok := PackageFromProjectName(project, packagename)
			if ok {
				fncs, ok := pkg.mapfunc[fncname]
				if ok {
					output = fncs[0]
				}
			}
''','''			pkg, _ := PackageFromProjectName(project, packagename)
			fncs, ok := pkg.mapfunc[fncname]
			if ok {
				output = fncs[0]
			}
'''),
]
demo=r'''
vx srcjava || { cat "$w/out.txt"; exit 3; }
python3 - "$p/project.vxlisp" <<'EOP'
import sys
f=sys.argv[1]
s=open(f).read()
i=s.index('(cmd ')
open(f,'w').write(s[:i]+'(cmd demomain\n   :code :source\n   :lang :java\n   :main demo/none/start\n   :path ../build/demo)\n  '+s[i:])
EOP
vx demomain && { echo "unknown main accepted"; exit 1; }
grep -q '^panic' "$w/out.txt" && { grep -m1 '^panic' "$w/out.txt"; exit 1; }
grep -q 'demo/none/start' "$w/out.txt" || { cat "$w/out.txt"; exit 3; }
exit 0
'''
