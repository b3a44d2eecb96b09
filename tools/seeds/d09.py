property="C09"
needs="a constant with a misspelt keyword after its value"
breaks="an unknown keyword that follows the value of a constant is ignored"
edits=[("src/vxlisp/const.go",'''				default:
					msg := NewMsgFromTextblock(
						textblock, 0, 0, "Invalid Keyword", word)
					msgblock = MsgblockAddError(msgblock, msg)
				}
''','''				default:
					if !valuefound {
						msg := NewMsgFromTextblock(
							textblock, 0, 0, "Invalid Keyword", word)
						msgblock = MsgblockAddError(msgblock, msg)
					}
				}
'''),
]
demo=r'''
f=$(grep -rl '(const myconst' "$p" | grep vxlisp$ | head -1)
[ -n "$f" ] || { echo "no constant"; exit 3; }
vx srcjava || { cat "$w/out.txt"; exit 3; }
cat >> "$f" <<'EOV'

(const demoword : string
 "a"
 :mutabel)
EOV
vx srcjava && { echo "unknown keyword accepted"; exit 1; }
grep -q 'mutabel' "$w/out.txt" || { cat "$w/out.txt"; exit 3; }
exit 0
'''
