property="C03"
needs="JavaScript output for a function call with two or more generic types, generated more than once"
breaks="the generated text differs from run to run"
edits=[("src/vxlisp/lang-js.go","""	sort.Strings(listkey)
	for _, key := range listkey {
		typ := maptype[key]
		name := LangTypeTGeneric(lang, typ)
""","""	for _, key := range listkey {
		typ := maptype[key]
		name := LangTypeTGeneric(lang, typ)
"""),
("src/vxlisp/lang-js.go","""import (
	"sort"
""","import (\n")]
demo=r'''
for i in 1 2 3 4 5 6 7 8; do
  vx srcjs testjs || { cat "$w/out.txt"; exit 3; }
  mv "$w/build" "$w/build$i"
  [ $i = 1 ] || diff -r "$w/build1" "$w/build$i" > /dev/null || { echo "run $i differs"; exit 1; }
done
'''
