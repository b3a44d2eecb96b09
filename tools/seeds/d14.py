property="C14"
needs="a test command with a filter"
breaks="the filter configured for a command is ignored when the command runs"
edits=[("src/vxlisp/command.go","	output.filter = command.filter\n	output.langcode = command.langcode\n","	output.langcode = command.langcode\n"),
]
demo=r'''
sed -i '/(cmd testjava/a\   :filter  vx/sample/myfunc' "$p/project.vxlisp"
vx testjava || { cat "$w/out.txt"; exit 3; }
f=$(find "$w/build" -name 'SampleTest.java')
grep -q 'f_myfunc' "$f" || { echo "selected test missing"; exit 1; }
grep -q 'c_myconst(' "$f" && { echo "test outside the filter generated"; exit 1; }
exit 0
'''
