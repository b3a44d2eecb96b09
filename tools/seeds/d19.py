property="C19"
needs="a struct type whose default property has a dash in its name, which neither the library nor the tests have"
breaks="the generated class sets a field under a name with a dash when it is made from an unnamed value, so the file does not compile"
edits=[("src/vxlisp/lang-type.go",'''				if lastarg.isdefault {
					lastargname := LangFromName(lastarg.name)
					lasttype := lastarg.vxtype
''','''				if lastarg.isdefault {
					lastargname := lastarg.name
					lasttype := lastarg.vxtype
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
cat >> "$f" <<'EOV'

(type demo-box : struct
 :properties
  [first-part : int
   last-part  : string :default])
EOV
vx srcjava || { cat "$w/out.txt"; exit 3; }
g=$(grep -rl 'demo_box' "$w" --include=*.java | head -1)
[ -n "$g" ] || { echo "type not generated"; exit 3; }
grep -n 'vx_p_last' "$g"
grep -q 'vx_p_last_part' "$g" || { echo "property not generated"; exit 3; }
if grep -q 'vx_p_last-part' "$g"; then echo "a field is named with a dash"; exit 1; fi
exit 0
'''
