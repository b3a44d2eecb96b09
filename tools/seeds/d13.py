property="C13"
needs="running with no arguments or with the help argument"
breaks="the log written for such a run stays empty"
edits=[("src/vxlisp/project.go","""vxlisp (e.g. :buildjs)]")
	} else {
""","""vxlisp (e.g. :buildjs)]")
		return msgblock
	} else {
""")]
demo=r'''
(cd "$w/run" && timeout 60 "$w/vxlisp" --help > "$w/out.txt" 2>&1) || exit 3
log=$(find "$w/run" -name '*.log' | head -1)
[ -n "$log" ] || { echo "no log"; exit 1; }
grep -q "allowed arguments" "$log" || { echo "message missing from the log"; exit 1; }
'''
