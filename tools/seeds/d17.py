property="C17"
needs="a pair of brackets with nothing in it between the definitions of a package, which no test has"
breaks="the compiler stops with an index out of range instead of reporting the empty block"
edits=[("src/vxlisp/package.go",'''			if len(listwordtextblock) < 2 {
				msg := NewMsgFromTextblock(
					subtextblock, 0, 0, "", "Empty Block Found")
''','''			if len(listwordtextblock) == 1 {
				msg := NewMsgFromTextblock(
					subtextblock, 0, 0, "", "Empty Block Found")
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no package"; exit 3; }
vx srcjava || { cat "$w/out.txt"; exit 3; }
printf '\n\n()\n' >> "$f"
vx srcjava && { echo "empty block accepted"; exit 1; }
grep -q '^panic' "$w/out.txt" && { grep -m1 '^panic' "$w/out.txt"; exit 1; }
grep -qi 'empty block' "$w/out.txt" || { cat "$w/out.txt"; exit 3; }
exit 0
'''
