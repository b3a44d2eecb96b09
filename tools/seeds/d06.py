property="C06"
needs="an asynchronous function declared with :permission, which neither the library nor the tests have"
breaks="the branch that reports a denied permission is not closed in the generated function, so the file does not compile"
edits=[("src/vxlisp/lang-func.go",'''							[]string{
								"msg"}))) +
			LangIfEnd(lang, 2)
		subindent += 1
''','''							[]string{
								"msg"})))
		if !fnc.async {
			permissionbottom += LangIfEnd(lang, 2)
		}
		subindent += 1
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(func demo-permitted : int
 [num : int]
 (+ num 1)
 :async
 :context
 :permission)
EOV
vx srcjava || { cat "$w/out.txt"; exit 3; }
g=$(grep -rl 'demo_permitted' "$w" --include=*.java | head -1)
[ -n "$g" ] || { echo "function not generated"; exit 3; }
python3 - "$g" <<'EOP'
import re, sys
s = open(sys.argv[1]).read()
s = re.sub(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|//[^\n]*|/\*.*?\*/', '', s, flags=re.S)
n = s.count('{') - s.count('}')
print('open braces left:', n)
sys.exit(1 if n else 0)
EOP
'''
