property="C12"
needs="an output file from an earlier run that starts with the newly generated text and has more behind it"
breaks="a stale output file is left in place although the run reports success"
edits=[("src/vxlisp/file.go","			if readtext != writetext {\n","			if !strings.HasPrefix(readtext, writetext) {\n")]
demo=r'''
vx srcjs || { cat "$w/out.txt"; exit 3; }
f="$w/build/js/src/vx/sample.js"
cp "$f" "$w/first.js"
echo "left over from an earlier version" >> "$f"
vx srcjs || { cat "$w/out.txt"; exit 3; }
cmp "$f" "$w/first.js" || exit 1
'''
