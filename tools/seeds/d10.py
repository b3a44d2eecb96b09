property="C10"
needs="a type with disallowed types but no allowed types, one of which does not exist"
breaks="the disallowed types of a type without allowed types are never looked up"
edits=[("src/vxlisp/type.go",'''		if len(typ.disallowtypes) > 0 {
			var values []*vxtype
''','''		if len(typ.allowtypes) > 0 && len(typ.disallowtypes) > 0 {
			var values []*vxtype
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
vx srcjava || { cat "$w/out.txt"; exit 3; }
cat >> "$f" <<'EOV'

(type demotype : struct
 :disallowtypes [nosuchtype]
 :properties [
  num : int])
EOV
vx srcjava && { echo "unknown disallowed type accepted"; exit 1; }
grep -q 'nosuchtype' "$w/out.txt" || { cat "$w/out.txt"; exit 3; }
exit 0
'''
