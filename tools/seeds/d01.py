property="C01"
needs="a project whose only mistake is in the test attached to a type"
breaks="a mistake in a type's test is no longer reported and the run looks successful"
edits=[("src/vxlisp/type.go","""			testvalues, msgs := ListValueLink(
				typ.testvalues, listscope, typ.textblock, subpath)
			msgblock = MsgblockAddBlock(msgblock, msgs)
			typ.testvalues = testvalues
""","""			testvalues, msgs := ListValueLink(
				typ.testvalues, listscope, typ.textblock, subpath)
			if !msgs.iserror {
				typ.testvalues = testvalues
				msgblock = MsgblockAddBlock(msgblock, msgs)
			}
""")]
demo=r'''
cat >> "$p/vx/sample.vxlisp" <<'X'

(type wrongtype : struct
 :properties
  [num : int]
 :test (test 5 (nosuchfunc 1)))
X
if vx srcjs; then echo "mistake accepted"; exit 1; fi
grep -q nosuchfunc "$w/out.txt" || { echo "mistake not named"; exit 1; }
'''
