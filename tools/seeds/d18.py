property="C18"
needs="two overloads of an asynchronous function, the second one called from JavaScript, which neither the library nor the tests have"
breaks="the generated JavaScript call always goes to the first overload"
edits=[("src/vxlisp/lang-js.go",'''				} else {
					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
				}
''','''				} else if fnc.async {
					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFromName(fnc.alias) + "("
				} else {
					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
				}
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(func demo-load : int
 [num : int]
 (+ num 1)
 :async)

(func demo-load : int
 [text : string]
 5
 :async)

(func demo-use : int
 []
 (demo-load "a")
 :async)
EOV
vx srcjs || { cat "$w/out.txt"; exit 3; }
g=$(grep -rl 'f_demo_use' "$w" --include=*.js | head -1)
[ -n "$g" ] || { echo "functions not generated"; exit 3; }
grep -n 'f_demo_load' "$g"
grep -q 'static async f_demo_load_1(' "$g" || { echo "no second overload"; exit 3; }
grep -q 'await [a-z_.]*f_demo_load_1(' "$g" || { echo "the second overload is not called"; exit 1; }
exit 0
'''
