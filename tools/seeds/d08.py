property="C08"
needs="a function marked :deprecated, which neither the library nor the tests have, looked up by name in the generated package"
breaks="a deprecated function is declared but not entered in the lookup table of its package in Java, Kotlin and C#"
edits=[("src/vxlisp/lang.go",'''				packagestatic += "" +
					"\\n    mapfunc.put(\\"" + fnc.name + LangIndexFromFunc(fnc) + "\\", " + LangFuncT(lang, fnc) + ")" + lang.lineend
''','''				if fnc.deprecated == "" {
					packagestatic += "" +
						"\\n    mapfunc.put(\\"" + fnc.name + LangIndexFromFunc(fnc) + "\\", " + LangFuncT(lang, fnc) + ")" + lang.lineend
				}
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(func demo-kept : int
 [num : int]
 (+ num 1))

(func demo-old : int
 [num : int]
 (+ num 2)
 :deprecated "use another")
EOV
vx srcjava || { cat "$w/out.txt"; exit 3; }
g=$(grep -rl 'Func_demo_kept' "$w" --include=*.java | head -1)
[ -n "$g" ] || { echo "functions not generated"; exit 3; }
grep -n '"demo-.*t_demo' "$g"
grep -q '"demo-kept"' "$g" || { echo "no lookup table"; exit 3; }
grep -q '"demo-old", *t_demo_old\|"demo-old", *Sample.t_demo_old' "$g" || { echo "demo-old is not in the lookup table"; exit 1; }
exit 0
'''
