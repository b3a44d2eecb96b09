property="C02"
needs="two or more commands given at once for a project that contains an error"
breaks="output is generated from a project that failed its checks"
edits=[("src/vxlisp/project.go","""		if !IsErrorFromMsgblock(msgblock) {
			cmds, msgs := ListCommandFromProject(project, cmdtexts)
			msgblock = MsgblockAddBlock(msgblock, msgs)
			if !IsErrorFromMsgblock(msgblock) {
""","""		if !IsErrorFromMsgblock(msgblock) || len(cmdtexts) > 1 {
			cmds, msgs := ListCommandFromProject(project, cmdtexts)
			msgblock = MsgblockAddBlock(msgblock, msgs)
			if !IsErrorFromMsgblock(msgs) {
""")]
demo=r'''
cat >> "$p/vx/sample.vxlisp" <<'X'

(func wrongfunc : int
 [num : int]
 (nosuchfunc num))
X
vx srcjs srcjava && exit 1
if [ -n "$(find "$w/build" -type f 2>/dev/null)" ]; then echo "files written for a broken project"; exit 1; fi
'''
