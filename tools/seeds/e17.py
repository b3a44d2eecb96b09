property="C17"
needs="a call that gives an argument to a function declared without any, which no test has"
breaks="the compiler stops with an index out of range instead of reporting the argument"
edits=[("src/vxlisp/arg.go",'''	} else if toargcnt == 0 && fromargcnt > 0 {
''','''	} else if toargcnt == 0 && fromargcnt > 1 {
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
vx srcjava || { cat "$w/out.txt"; exit 3; }
cat >> "$f" <<'EOV'

(func demo-none : int
 []
 5)

(func demo-use : int
 []
 (demo-none 3))
EOV
vx srcjava && { echo "argument accepted"; exit 1; }
grep -q '^panic' "$w/out.txt" && { grep -m1 '^panic' "$w/out.txt"; exit 1; }
exit 0
'''
