property="C05"
needs="a string constant on a single line with a dollar sign in it, generated for Kotlin"
breaks="the text of the constant is written unescaped, so a part of it is evaluated as code in the generated string literal"
edits=[("src/vxlisp/lang-const.go","package vxlisp\n","package vxlisp\n\nimport \"strings\"\n"),
("src/vxlisp/lang-const.go",'''			cnstval = LangNativeFromText(lang, cnstval)
			cnstval = "\\"" + cnstval + "\\""
''','''			if strings.ContainsAny(cnstval, "\\\\\\"\\n\\r") {
				cnstval = LangNativeFromText(lang, cnstval)
			}
			cnstval = "\\"" + cnstval + "\\""
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(const demo-price : string
 "cost $total end")
EOV
vx srckotlin || { cat "$w/out.txt"; exit 3; }
g=$(grep -rl 'cost .*total end' "$w" --include=*.kt | head -1)
[ -n "$g" ] || { echo "constant not generated"; exit 3; }
grep -n 'cost .*total end' "$g"
if grep -q '"cost [$]total end"' "$g"; then
  echo "the dollar sign starts an interpolation"
  exit 1
fi
exit 0
'''
