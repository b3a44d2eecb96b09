property="C04"
needs="a description that already holds a character reference such as &amp; together with markup such as <b>"
breaks="the description is put on the documentation page unescaped, so its markup becomes part of the page"
edits=[("src/vxlisp/doc.go","import (\n","import (\n\t\"strings\"\n"),
("src/vxlisp/doc.go",'''	output := text
	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "&", "&amp;")
''','''	output := text
	if strings.Contains(output, "&amp;") {
		return output
	}
	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "&", "&amp;")
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(const demo-note : string
 "x"
 :doc "write &amp; or <i>demo</i>")
EOV
vx doc || { cat "$w/out.txt"; exit 3; }
g=$(find "$w" -name doc.html -newer "$f" | head -1)
[ -n "$g" ] || { echo "no page"; exit 3; }
grep -n 'demo</i>\|demo&lt;/i' "$g" | head -4
if grep -q '<i>demo</i>' "$g"; then
  echo "the description opens an element"
  exit 1
fi
grep -q '&lt;i&gt;demo&lt;/i&gt;' "$g" || { echo "description not on the page"; exit 3; }
exit 0
'''
