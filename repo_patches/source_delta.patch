From 59cd003ca40e23a5e6c04e813d420176d844f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 01/64] fix: initialise the created const instead of the shared
 empty const

V_const_create initialised E_const, so every const it returned had no type
and generating Swift source dereferenced a nil pointer.
---
 src/vxlisp/vx/core/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/vx/core/core.go b/src/vxlisp/vx/core/core.go
index ff66479..a52503a 100644
--- a/src/vxlisp/vx/core/core.go
+++ b/src/vxlisp/vx/core/core.go
@@ -1631,7 +1631,7 @@ func V_const_initialize(
 // V_const_create
 func V_const_create() *Type_const {
 	var output = V_const_constructor()
-	V_const_initialize(E_const)
+	V_const_initialize(output)
 	return output
 }
 
-- 
2.43.0


From c87ac8d417fea89bd50c2490d34627d9a4955703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 02/64] fix: exit with status 1 when the run reported errors

---
 src/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index 97bae4b..bae91ce 100644
--- a/src/main.go
+++ b/src/main.go
@@ -7,5 +7,8 @@ import (
 
 func main() {
 	args := os.Args
-	vxlisp.ExecuteProjectFromArgs(args)
+	msgblock := vxlisp.ExecuteProjectFromArgs(args)
+	if vxlisp.IsErrorFromMsgblock(msgblock) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 722fa789b4ace4687f7bc058c289e9042a28a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 03/64] fix: report failures while copying test data folders

Failing to create a directory, to set the mode of a copied file or to close it
was ignored.
---
 src/vxlisp/file.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index caf3933..09851ea 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -51,8 +51,7 @@ func FolderCopyFromSourceTarget(
 		outpath := filepath.Join(targetpath, suffix)
 
 		if info.IsDir() {
-			os.MkdirAll(outpath, info.Mode())
-			return nil // means recursive
+			return os.MkdirAll(outpath, info.Mode()) // nil means recursive
 		}
 
 		// handle irregular files
@@ -82,14 +81,21 @@ func FolderCopyFromSourceTarget(
 		if err != nil {
 			return err
 		}
-		defer fh.Close()
 
 		// make it the same
-		fh.Chmod(info.Mode())
+		err = fh.Chmod(info.Mode())
+		if err != nil {
+			fh.Close()
+			return err
+		}
 
 		// copy content
 		_, err = io.Copy(fh, in)
-		return err
+		if err != nil {
+			fh.Close()
+			return err
+		}
+		return fh.Close()
 	})
 	if walkerror != nil {
 		msgblock = MsgblockAddException(msgblock, walkerror)
-- 
2.43.0


From 61e74d8747ba967db85be37d9a5dfb77cc762eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 04/64] fix: report unreadable folders when listing source
 files

The walk ignored the error of an entry and dereferenced its missing file info.
---
 src/vxlisp/file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index 09851ea..efc406a 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -151,6 +151,9 @@ func ListStringReadFromPathExtension(
 		err := filepath.Walk(
 			path,
 			func(path string, info os.FileInfo, err error) error {
+				if err != nil {
+					return err
+				}
 				if info.IsDir() {
 				} else if extension != "" && !BooleanFromStringEnds(path, extension) {
 				} else {
-- 
2.43.0


From 43d6a98aecd20df55d5d187800150651fad8d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 05/64] fix: report an existing output file that cannot be read

An unreadable file was treated as empty, so an empty file was silently not
written over it.
---
 src/vxlisp/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index efc406a..fad87d6 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -298,7 +298,8 @@ func WriteListFile(
 		}
 		filepath := path + "/" + name
 		if BooleanExistsFromPath(filepath) {
-			readtext, _ := StringFromReadTextFile(filepath)
+			readtext, msgs := StringFromReadTextFile(filepath)
+			msgblock = MsgblockAddBlock(msgblock, msgs)
 			if readtext != writetext {
 				_, err := WriteFileFromFilenameText(filepath, writetext)
 				if err != nil {
-- 
2.43.0


From 9a9fca41708ba3dc3ac609406b8cee1dc2728d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 06/64] fix: print failures to write the build log

---
 src/vxlisp/msg.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/msg.go b/src/vxlisp/msg.go
index acc0a05..5ce8bf7 100644
--- a/src/vxlisp/msg.go
+++ b/src/vxlisp/msg.go
@@ -141,8 +141,14 @@ func MsgStartLog() {
 
 func MsgStopLog() {
 	if outputlog {
-		outputWriter.Flush()
-		outputFile.Close()
+		err := outputWriter.Flush()
+		if err != nil {
+			fmt.Println(err)
+		}
+		err = outputFile.Close()
+		if err != nil {
+			fmt.Println(err)
+		}
 	}
 }
 
-- 
2.43.0


From b5cc5a86fa64636e9ae4b5211c634bf4c963c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 07/64] fix: keep diagnostics of the argument type check in C++
 values

---
 src/vxlisp/lang-cpp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..d34d325 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -3014,7 +3014,8 @@ func CppFromValue(
 							case ":list", ":map":
 							default:
 								if funcarg.vxtype.name != funcarg.value.vxtype.name {
-									ok, _ := BooleanAllowFromTypeType(funcarg.vxtype, funcarg.value.vxtype)
+									ok, msgs := BooleanAllowFromTypeType(funcarg.vxtype, funcarg.value.vxtype)
+									msgblock = MsgblockAddBlock(msgblock, msgs)
 									if ok {
 										argtext = "(" + LangTypeName(lang, funcarg.vxtype) + ")" + argtext
 									}
-- 
2.43.0


From 92e6134b1b2390fe95b0f35700ca8caee198c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:07 +0000
Subject: [PATCH 08/64] fix: report a missing :context or :main function as an
 error

It was only printed while the app was generated without it.
---
 src/vxlisp/project.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 0295eec..a1bce7a 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -48,6 +48,11 @@ func ExecuteProjectCommand(
 	command := NewCommandCopy(origcommand)
 	command.path = path
 	issource := false
+	msgs := MsgblockValidateFromProjectCmd(project, command)
+	msgblock = MsgblockAddBlock(msgblock, msgs)
+	if IsErrorFromMsgblock(msgblock) {
+		return msgblock
+	}
 	switch command.code {
 	case ":doc":
 		msgs := WriteDocFromProjectCmd(project, command)
@@ -160,6 +165,27 @@ func ListPackageFromProject(
 	return output
 }
 
+func MsgblockValidateFromProjectCmd(
+	project *vxproject,
+	command *vxcommand) *vxmsgblock {
+	msgblock := NewMsgBlock("MsgblockValidateFromProjectCmd")
+	switch command.code {
+	case ":source", ":test":
+		if command.context != "" && FuncFromProjectFuncname(project, command.context) == emptyfunc {
+			msg := NewMsg("Context Not Found: (project (cmd :context " + command.context + "))")
+			msgblock = MsgblockAddError(msgblock, msg)
+		}
+	}
+	switch command.code {
+	case ":source":
+		if command.main != "" && FuncFromProjectFuncname(project, command.main) == emptyfunc {
+			msg := NewMsg("Main Not Found: (project (cmd :main " + command.main + "))")
+			msgblock = MsgblockAddError(msgblock, msg)
+		}
+	}
+	return msgblock
+}
+
 func PackageFromProjectFunc(
 	prj *vxproject,
 	fnc *vxfunc) *vxpackage {
-- 
2.43.0


From 0e9a9a24256628d08f1628f50abc30e549636b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:30 +0000
Subject: [PATCH 09/64] fix: show property names instead of addresses in the
 invalid property error

---
 src/vxlisp/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index dbb4640..a66a7fd 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1223,7 +1223,7 @@ func TypeFromTextblock(
 								default:
 									if vx_core.V_booleann_from_stringn_startsn(property, ":") {
 										msg := NewMsgFromTextblock(
-											textblock, 0, 0, "", "Invalid Property", property, typ.properties)
+											textblock, 0, 0, "", "Invalid Property", property, StringFromListArg(typ.properties))
 										msgblock = MsgblockAddError(msgblock, msg)
 									} else {
 										if arg.name != "" {
-- 
2.43.0


From b7ef83133d49504aabaea2c52347f4b77080ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 10/64] fix: do not collect generic types of one definition in
 a map shared by all

---
 src/vxlisp/const.go | 2 +-
 src/vxlisp/type.go  | 2 +-
 src/vxlisp/value.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 0934c73..9874fc0 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -215,7 +215,7 @@ func ListConstValidate(
 	msgblock := NewMsgBlock("ConstValidate")
 	for _, cnst := range listconst {
 		subpath := path + "/" + cnst.name
-		value, _, msgs := ValueValidate(cnst.value, cnst.vxtype, false, emptygenerictypes, cnst.textblock, subpath)
+		value, _, msgs := ValueValidate(cnst.value, cnst.vxtype, false, NewMapType(), cnst.textblock, subpath)
 		msgblock = MsgblockAddBlock(msgblock, msgs)
 		cnst.value = value
 		listtestvalue, msgs := ListValueValidateTestFuncs(cnst.listtestvalue, cnst.textblock, subpath)
diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index a66a7fd..fb3e50e 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -912,7 +912,7 @@ func ListTypeValidate(
 		subpath := path + "/" + typ.name
 		if len(typ.properties) > 0 {
 			properties, _, msgs := ListArgValidate(
-				typ.properties, emptygenerictypes, typ.textblock, subpath)
+				typ.properties, NewMapType(), typ.textblock, subpath)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			typ.properties = properties
 		}
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eeac384..280b33d 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -190,7 +190,7 @@ func ListValueValidateTestFuncs(
 			switch testname {
 			case "test", "test-false", "test-ne", "test-string", "test-true":
 				testvalue, _, msgs := ValueValidate(
-					value, testresulttype, false, emptygenerictypes, textblock, subpath)
+					value, testresulttype, false, NewMapType(), textblock, subpath)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				listtestvalue = append(listtestvalue, testvalue)
 			default:
-- 
2.43.0


From 3b2df72f8de13dc637c5fe01727ee60690357d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 11/64] fix: return a new project instead of the shared empty
 project when none is found

---
 src/vxlisp/project.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index a1bce7a..ae856b5 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -409,6 +409,7 @@ func ProjectReadAllFromPath(
 	if project == emptyproject {
 		msg := NewMsg("project.vxlisp file not found in " + projectpath)
 		msgblock = MsgblockAddError(msgblock, msg)
+		project = NewProject("")
 	} else {
 		for _, pkg := range packages {
 			pkg.project = project
-- 
2.43.0


From e0241317adb0cefeded592ce95bca99505d9635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:43 +0000
Subject: [PATCH 12/64] fix: keep the config of a command when it is copied

---
 src/vxlisp/command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index e767587..1e92814 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -26,6 +26,7 @@ func NewCommandCopy(
 	command *vxcommand) *vxcommand {
 	output := NewCommand()
 	output.code = command.code
+	output.config = command.config
 	output.context = command.context
 	output.doc = command.doc
 	output.filter = command.filter
-- 
2.43.0


From c0a8943652cafe9dde66415015675ce018cf0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:43 +0000
Subject: [PATCH 13/64] fix: keep mutable and subtype when a type is copied

---
 src/vxlisp/type.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index fb3e50e..1d10e2c 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -273,6 +273,7 @@ func NewTypeCopy(typecopy *vxtype) *vxtype {
 	typ.extends = typecopy.extends
 	typ.generic = typecopy.generic
 	typ.isgeneric = typecopy.isgeneric
+	typ.mutable = typecopy.mutable
 	typ.properties = typecopy.properties
 	typ.traits = typecopy.traits
 	typ.allowfuncs = typecopy.allowfuncs
@@ -287,6 +288,7 @@ func NewTypeCopy(typecopy *vxtype) *vxtype {
 	typ.createvalue = typecopy.createvalue
 	typ.destroyvalue = typecopy.destroyvalue
 	typ.emptyvalue = typecopy.emptyvalue
+	typ.subtype = typecopy.subtype
 	typ.testvalues = typecopy.testvalues
 	typ.textblock = typecopy.textblock
 	return typ
-- 
2.43.0


From 673bd834c007b762e92eaf63d1cd34c70e36a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:43 +0000
Subject: [PATCH 14/64] fix: keep alias and documentation when an argument is
 copied

---
 src/vxlisp/arg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index bb4b4d0..954ff6e 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -42,7 +42,8 @@ func NewArgCopy(
 	arg vxarg) vxarg {
 	output := *new(vxarg)
 	output.name = arg.name
-	output.alias = arg.name
+	output.alias = arg.alias
+	output.doc = arg.doc
 	output.async = arg.async
 	output.multi = arg.multi
 	output.isdefault = arg.isdefault
-- 
2.43.0


From 231ab0a4b9d33e76d3ee46331fe233031a486061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:43 +0000
Subject: [PATCH 15/64] fix: keep all attributes when a function is copied

---
 src/vxlisp/func.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index d013427..b2b3429 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -360,6 +360,17 @@ func NewFuncCopy(fnc *vxfunc) *vxfunc {
 	output.name = fnc.name
 	output.idx = fnc.idx
 	output.alias = fnc.alias
+	output.argname = fnc.argname
+	output.bigospace = fnc.bigospace
+	output.bigotime = fnc.bigotime
+	output.doc = fnc.doc
+	output.isimplement = fnc.isimplement
+	output.isimplement2 = fnc.isimplement2
+	output.isoverride = fnc.isoverride
+	output.messages = fnc.messages
+	output.protected = fnc.protected
+	output.private = fnc.private
+	output.wrapper = fnc.wrapper
 	output.clientserver = fnc.clientserver
 	output.context = fnc.context
 	output.vxtype = fnc.vxtype
-- 
2.43.0


From e793b44dd2eabcc8f1b493a73d16555bcec71edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:11 +0000
Subject: [PATCH 16/64] fix: report a web server failure instead of exiting
 with an unwritten log

---
 src/vxlisp/project.go   | 3 ++-
 src/vxlisp/webserver.go | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index ae856b5..2464acf 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -66,7 +66,8 @@ func ExecuteProjectCommand(
 		}
 		issource = true
 	case ":webserver":
-		WebServerStart(project, command)
+		msgs := WebServerStart(project, command)
+		msgblock = MsgblockAddBlock(msgblock, msgs)
 	}
 	return msgblock
 }
diff --git a/src/vxlisp/webserver.go b/src/vxlisp/webserver.go
index 1355ad8..08c7769 100644
--- a/src/vxlisp/webserver.go
+++ b/src/vxlisp/webserver.go
@@ -1,12 +1,12 @@
 package vxlisp
 
 import (
-	"log"
 	"net/http"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
-func WebServerStart(project *vxproject, command *vxcommand) {
+func WebServerStart(project *vxproject, command *vxcommand) *vxmsgblock {
+	msgblock := NewMsgBlock("WebServerStart")
 	path := PathFromProjectCmd(project, command)
 	port := command.port
 	if port == 0 {
@@ -16,6 +16,7 @@ func WebServerStart(project *vxproject, command *vxcommand) {
 	MsgPrint("Webserver running on http://localhost:" + vx_core.V_stringn_from_intn(port) + "/public")
 	http.Handle("/", http.FileServer(http.Dir(path)))
 
-	log.Fatal(http.ListenAndServe(":"+vx_core.V_stringn_from_intn(port), nil))
-
+	err := http.ListenAndServe(":"+vx_core.V_stringn_from_intn(port), nil)
+	msgblock = MsgblockAddException(msgblock, err)
+	return msgblock
 }
-- 
2.43.0


From de11105ec34521c8374865c2f34cfb52b32c7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 17/64] fix: reject an unknown command code

---
 src/vxlisp/command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index 1e92814..7b3d3e6 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -84,7 +84,14 @@ func CommandFromTextblock(
 				default:
 					switch lastprop {
 					case ":code":
-						command.code = prop
+						switch prop {
+						case ":doc", ":source", ":test", ":webserver":
+							command.code = prop
+						default:
+							msg := NewMsgFromTextblock(
+								textblock, 0, 0, "Invalid Cmd Code", prop)
+							msgblock = MsgblockAddError(msgblock, msg)
+						}
 					case ":config":
 						command.config = prop
 					case ":context":
-- 
2.43.0


From fb261f4eb434a5873b856f08dbbf0c382ab77867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 18/64] fix: reject an unknown target language of a command

---
 src/vxlisp/command.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index 7b3d3e6..f3702b1 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -101,8 +101,14 @@ func CommandFromTextblock(
 					case ":filter":
 						command.filter = prop
 					case ":lang":
+						lang, ok := maplang[prop]
+						if !ok {
+							msg := NewMsgFromTextblock(
+								textblock, 0, 0, "Invalid Cmd Lang", prop)
+							msgblock = MsgblockAddError(msgblock, msg)
+						}
 						command.langcode = prop
-						command.lang = maplang[prop]
+						command.lang = lang
 					case ":main":
 						command.main = prop
 					case ":path":
-- 
2.43.0


From 16b0c8d50209abccbb0bd978334e7e80a4e22f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 19/64] fix: use the :name of a command instead of ignoring it

---
 src/vxlisp/command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index f3702b1..b16d430 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -111,6 +111,8 @@ func CommandFromTextblock(
 						command.lang = lang
 					case ":main":
 						command.main = prop
+					case ":name":
+						command.name = prop
 					case ":path":
 						command.path = prop
 					case ":port":
-- 
2.43.0


From 763f32b4451f8fd2d28fa787a2734d607137cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 20/64] fix: reject an unknown language of a library

---
 src/vxlisp/library.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vxlisp/library.go b/src/vxlisp/library.go
index 631c134..5cafbb4 100644
--- a/src/vxlisp/library.go
+++ b/src/vxlisp/library.go
@@ -61,6 +61,12 @@ func LibraryFromTextblock(
 					library.doc = prop
 					lastprop = ""
 				case ":lang":
+					_, ok := maplang[prop]
+					if !ok {
+						msg := NewMsgFromTextblock(
+							textblock, 0, 0, "Invalid Library Lang", prop)
+						msgblock = MsgblockAddError(msgblock, msg)
+					}
 					library.lang = prop
 					lastprop = ""
 				case ":path":
-- 
2.43.0


From eecd4913b03f57ec341899248b103908050d599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 21/64] fix: reject unknown and empty blocks in a project file

---
 src/vxlisp/project.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 2464acf..2589957 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -502,7 +502,15 @@ func ProjectFromTextblock(
 						}
 					}
 				}
+			default:
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, "", "Invalid Project Block", firstwordtextblock.text)
+				msgblock = MsgblockAddError(msgblock, msg)
 			}
+		} else {
+			msg := NewMsgFromTextblock(
+				textblock, 0, 0, "", "Empty Block Found")
+			msgblock = MsgblockAddError(msgblock, msg)
 		}
 	}
 	return prj, msgblock
-- 
2.43.0


From 9a499d16d49d58fc9a0f1fbc740f09eea6e6acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 22/64] fix: check keywords that follow the tests of a type

---
 src/vxlisp/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 1d10e2c..2bbe16f 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1137,12 +1137,13 @@ func TypeFromTextblock(
 			if testcls {
 				if vx_core.V_booleann_from_stringn_startsn(word, ":") {
 					testcls = false
-					lastword = word
 				} else {
 					testvalue, msgs := ValueFromTextblock(wordtextblock, emptyfunc, pkg)
 					msgblock = MsgblockAddBlock(msgblock, msgs)
 					testvalues = append(testvalues, testvalue)
 				}
+			}
+			if testcls {
 			} else if lastword != "" {
 				switch lastword {
 				case ":":
-- 
2.43.0


From 8aab72a196d8c67c5ee3974563f689399b4766cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 23/64] fix: reject a value in curly brackets instead of
 ignoring it

---
 src/vxlisp/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 280b33d..29f0093 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -562,6 +562,10 @@ func ValueFromTextblock(
 		} else {
 			output = NewValueFromUnknown(text)
 		}
+	default:
+		msg := NewMsgFromTextblock(
+			textblock, 0, 0, "Invalid Value BlockType", textblock.blocktype)
+		msgblock = MsgblockAddError(msgblock, msg)
 	}
 	output.textblock = textblock
 	return output, msgblock
-- 
2.43.0


From dee72ec5f833100e7fc7bbdd0836a2c1089478d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:03 +0000
Subject: [PATCH 24/64] fix: report quotes, comments and brackets that are
 never closed

---
 src/vxlisp/textblock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..25f6c47 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -385,6 +385,11 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
+	if state != BLOCKTYPE_UNDEFINED {
+		msg := NewMsgFromTextblock(
+			textblock, linenum, charnum, "Mismatched Delimiter", state)
+		msgblock = MsgblockAddError(msgblock, msg)
+	}
 	for _, stateblock := range blockstack {
 		state = stateblock.blocktype
 		switch state {
-- 
2.43.0


From a5cd55c6cfcc8047aec4b49edea71f6114a2583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:00 +0000
Subject: [PATCH 25/64] fix: accept commands that follow the path argument

---
 src/vxlisp/project.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 2589957..8b99794 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -102,6 +102,7 @@ func ExecuteProjectFromArgs(
 				switch lastarg {
 				case "--path", ":path":
 					projectpath = arg
+					lastarg = ""
 				default:
 					switch arg {
 					case "--path", ":path":
-- 
2.43.0


From b239673e8e12c8bdb521a0a5e217e7791b7770cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:20 +0000
Subject: [PATCH 26/64] fix: report an unknown parent of a type

---
 src/vxlisp/type.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 2bbe16f..5d77d96 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1,6 +1,7 @@
 package vxlisp
 
 import (
+	"strings"
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -776,6 +777,18 @@ func ListTypeLink(
 	}
 	for _, typ := range listtype {
 		subpath := path + "/" + typ.name
+		switch typ.extends {
+		case "", ":func", ":list", ":map", ":struct", ":type":
+		default:
+			extends := strings.TrimPrefix(typ.extends, ":")
+			_, ok := TypeOrFuncFromListScope(
+				scopes, "", extends, subpath)
+			if !ok {
+				msg := NewMsgFromTextblock(
+					typ.textblock, 0, 0, subpath, "Parent Type Missing", extends)
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+		}
 		if len(typ.allowtypes) > 0 {
 			var values []*vxtype
 			for _, val := range typ.allowtypes {
-- 
2.43.0


From ef1461c93f4e71e2de1d71be8e98c6d39009f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:28 +0000
Subject: [PATCH 27/64] fix: report the unknown explicit type of a function
 call

---
 src/vxlisp/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 29f0093..e85daf4 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -672,6 +672,10 @@ func ValueLink(
 				if lookuptype.isgeneric {
 					fnc.generictype = lookuptype
 				}
+			} else {
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, subpath, "Function Type Not Found", functype.pkgname, functype.name)
+				msgblock = MsgblockAddError(msgblock, msg)
 			}
 		}
 		switch NameFromFunc(fnc) {
-- 
2.43.0


From ad62b78c5ccdf11735e8eb96ff788c9b044abbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:29 +0000
Subject: [PATCH 28/64] fix: match every argument of a function against its
 function type

---
 src/vxlisp/signature.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/signature.go b/src/vxlisp/signature.go
index ca8ea83..471e192 100644
--- a/src/vxlisp/signature.go
+++ b/src/vxlisp/signature.go
@@ -44,8 +44,11 @@ func IsSignatureMatch(
 			} else {
 				templatesignature = template.listsignature[i]
 			}
-			output = IsSignatureMatch(
+			ispass := IsSignatureMatch(
 				templatesignature, actualsignature, i, path)
+			if !ispass {
+				output = false
+			}
 		}
 	} else if actualtype.isfunc && NameFromType(templatetype) == "vx/core/any" {
 		output = true
-- 
2.43.0


From f43419c031ee127fe773fa7632de823eb50cf7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:29 +0000
Subject: [PATCH 29/64] fix: report a test that is not a test function instead
 of dropping it

---
 src/vxlisp/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index e85daf4..d0f7213 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -198,6 +198,10 @@ func ListValueValidateTestFuncs(
 					textblock, 0, 0, path, "Func Must Be a Test", "test", testname)
 				msgblock = MsgblockAddError(msgblock, msg)
 			}
+		default:
+			msg := NewMsgFromTextblock(
+				textblock, 0, 0, subpath, "Test Must Be a Test Func", value.code)
+			msgblock = MsgblockAddError(msgblock, msg)
 		}
 	}
 	return listtestvalue, msgblock
-- 
2.43.0


From 00bc961364b79ccbbd4a236ee9f5d33fb8e9e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:29 +0000
Subject: [PATCH 30/64] fix: check the empty value of a type against the type

---
 src/vxlisp/type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 5d77d96..9c61251 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -931,6 +931,10 @@ func ListTypeValidate(
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			typ.properties = properties
 		}
+		emptyvalue, _, msgs := ValueValidate(
+			typ.emptyvalue, typ, false, NewMapType(), typ.textblock, subpath)
+		msgblock = MsgblockAddBlock(msgblock, msgs)
+		typ.emptyvalue = emptyvalue
 		testvalues, msgs := ListValueValidateTestFuncs(
 			typ.testvalues, typ.textblock, subpath)
 		msgblock = MsgblockAddBlock(msgblock, msgs)
-- 
2.43.0


From b33466a3a98c0c3848eef174faef543ea4b6014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:10 +0000
Subject: [PATCH 31/64] fix: resolve the names used in the creation and
 destruction code of a type

---
 src/vxlisp/type.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 9c61251..96afb08 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -910,6 +910,14 @@ func ListTypeLinkValues(
 				typ.emptyvalue, typ, listscope, typ.textblock, subpath)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			typ.emptyvalue = emptyvalue
+			createvalue, msgs := ValueLink(
+				typ.createvalue, emptytype, listscope, typ.textblock, subpath)
+			msgblock = MsgblockAddBlock(msgblock, msgs)
+			typ.createvalue = createvalue
+			destroyvalue, msgs := ValueLink(
+				typ.destroyvalue, emptytype, listscope, typ.textblock, subpath)
+			msgblock = MsgblockAddBlock(msgblock, msgs)
+			typ.destroyvalue = destroyvalue
 			testvalues, msgs := ListValueLink(
 				typ.testvalues, listscope, typ.textblock, subpath)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
-- 
2.43.0


From f8282f4846746c721645d661b12b6671a903ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 32/64] fix: close the body of a generated function that has no
 statements

The header of a function opens a brace but the closing brace was only written
when there was a body text.
---
 src/vxlisp/lang-func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 8f13fc0..c192ab1 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -492,8 +492,8 @@ func LangFuncHeaderAll(
 			if !isskip {
 				sreturn = sindent + "  return " + soutput + lang.lineend
 			}
-			sclose = sindent + "}\n"
 		}
+		sclose = sindent + "}\n"
 	}
 	funcprefix, returntype1, returntype2 := LangFuncPrefixReturnTypes(
 		lang, fnc, prefix)
-- 
2.43.0


From e1d4d3b11071c8ad18886b58b3ea42e45da641bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 33/64] fix: keep the log call of a debugged native value

The text of the native value replaced the opening of the log call in C++ and
JavaScript, leaving its closing bracket behind.
---
 src/vxlisp/lang-cpp.go | 2 +-
 src/vxlisp/lang-js.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index d34d325..cb5e0b6 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2639,7 +2639,7 @@ func CppFromValue(
 				test,
 				subpath)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
-			output = snative
+			output += snative
 		default:
 			var argtexts []string
 			funcargs := fnc.listarg
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b3faac2..ceccec5 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -661,7 +661,7 @@ func JsFromValue(
 				test,
 				subpath)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
-			output = snative
+			output += snative
 		default:
 			var argtexts []string
 			funcargs := fnc.listarg
-- 
2.43.0


From db8cc710877d676e818d55632bae31564c0e973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 34/64] fix: close calls of functions named fn outside the core
 package

The opening bracket is left out for vx/core/fn only, but the closing one was
left out for any function of that name.
---
 src/vxlisp/lang-cpp.go |  4 ++--
 src/vxlisp/lang-js.go  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index cb5e0b6..6f66410 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -3038,8 +3038,8 @@ func CppFromValue(
 				if fnc.argname != "" {
 					output += "}"
 				}
-				switch fnc.name {
-				case "fn":
+				switch funcname {
+				case "vx/core/fn":
 				default:
 					output += "\n" + sindent + ")"
 				}
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index ceccec5..49d9de3 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -701,7 +701,7 @@ func JsFromValue(
 			//subindent := indent + "  "
 			for fncidx, funcarg := range funcargs {
 				argsubpath := subpath + "/:arg/" + funcarg.name
-				if fncidx == 0 && fnc.name == "fn" {
+				if fncidx == 0 && funcname == "vx/core/fn" {
 				} else {
 					var argvalue = funcarg.value
 					argtext := ""
@@ -793,8 +793,8 @@ func JsFromValue(
 				if multiflag {
 					output += "\n" + sindent + "  )"
 				}
-				switch fnc.name {
-				case "fn":
+				switch funcname {
+				case "vx/core/fn":
 				default:
 					output += "\n" + sindent + ")"
 				}
@@ -803,8 +803,8 @@ func JsFromValue(
 				if multiflag {
 					output += ")"
 				}
-				switch fnc.name {
-				case "fn":
+				switch funcname {
+				case "vx/core/fn":
 				default:
 					output += ")"
 				}
-- 
2.43.0


From 80891f2118be1966e607b03167454e810a711df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 35/64] fix: open the C++ call that reads a computed property
 of an argument

Only properties given as literal text become a getter; for others the call was
closed without having been opened.
---
 src/vxlisp/lang-cpp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 6f66410..36f02c1 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2668,6 +2668,8 @@ func CppFromValue(
 						work = work + "->" + LangFromName(propname) + "()"
 						argtexts = append(argtexts, work)
 						isskip = true
+					default:
+						output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
 					}
 				default:
 					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
-- 
2.43.0


From 6f2d842f335cbc40420aedaf44ec964bb27a6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 36/64] fix: call an argument whose type is a core function
 through its name

In C++ an argument of type any<-struct, fn or let was called as if it were the
function itself, and the argument list was closed without being opened.
---
 src/vxlisp/lang-cpp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 36f02c1..f1c8a3b 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2646,7 +2646,11 @@ func CppFromValue(
 			isskip := false
 			multiline := false
 			multiflag := false
-			switch funcname {
+			callname := funcname
+			if fnc.argname != "" {
+				callname = ""
+			}
+			switch callname {
 			case "vx/core/any<-struct":
 				targetvalue := funcargs[0].value
 				switch targetvalue.code {
@@ -3040,7 +3044,7 @@ func CppFromValue(
 				if fnc.argname != "" {
 					output += "}"
 				}
-				switch funcname {
+				switch callname {
 				case "vx/core/fn":
 				default:
 					output += "\n" + sindent + ")"
@@ -3053,7 +3057,7 @@ func CppFromValue(
 				if fnc.argname != "" {
 					output += "}"
 				}
-				switch funcname {
+				switch callname {
 				case "vx/core/fn":
 				default:
 					if !isskip {
-- 
2.43.0


From f95aca969510b2b5ecabd35246ed46103dd425f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:58 +0000
Subject: [PATCH 37/64] fix: close the shutdown function of the generated Swift
 generic type

---
 src/vxlisp/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/code.go b/src/vxlisp/code.go
index 6e14438..a78c203 100644
--- a/src/vxlisp/code.go
+++ b/src/vxlisp/code.go
@@ -335,8 +335,8 @@ func code_type_generic(
 				lineindent + "  public func p_shutdown(" +
 				lineindent + "    _ type_any : " + vx_core.V_code_type_typename(type_scope, vx_core.T_any) +
 				lineindent + "  ) {" +
+				lineindent + "  }" +
 				/*
-					lineindent + "  }" +
 					lineindent + "  // p_type_list" +
 					lineindent + "  public func p_type_list(" +
 					lineindent + "    _ type_any : " + vx_core.V_lang_type_typename(type_lang, vx_core.T_any) +
-- 
2.43.0


From 60fc66aee4f70277df7b9c510bb253df75c56864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:32 +0000
Subject: [PATCH 38/64] fix: keep backslashes, quotes and interpolation marks
 of a text inside its string literal

---
 src/vxlisp/lang-cpp.go    |  6 +-----
 src/vxlisp/lang-native.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f1c8a3b..fa0217e 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1509,11 +1509,7 @@ func CppFromPackage(
 
 func CppFromText(
 	text string) string {
-	var output = text
-	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
-	output = strings.ReplaceAll(output, "\"", "\\\"")
-	return output
+	return LangNativeFromText(langcpp, text)
 }
 
 func CppBodyFromType(
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index c741ed9..ceb559f 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -658,13 +658,23 @@ func LangNativeFromText(
 	text string) string {
 	var output = text
 	output = strings.ReplaceAll(output, "\r", "")
+	// pairs of backslashes are kept apart from the backslashes that need one
+	output = strings.ReplaceAll(output, "\\\\", "\x00")
+	output = strings.ReplaceAll(output, "\\\"", "\x00\"")
+	output = strings.ReplaceAll(output, "\\\n", "\x00\n")
+	if strings.HasSuffix(output, "\\") {
+		output += "\\"
+	}
 	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
 	output = strings.ReplaceAll(output, "\"", "\\\"")
 	switch lang {
 	case langkotlin:
+		output = strings.ReplaceAll(output, "\\$", "\x00$")
 		output = strings.ReplaceAll(output, "$", "\\$")
+	case langswift:
+		output = strings.ReplaceAll(output, "\\(", "\x00(")
 	}
+	output = strings.ReplaceAll(output, "\x00", "\\\\")
 	return output
 }
 
-- 
2.43.0


From 3c6b71d6f0d61d7bcac4a469bfe7be7acb7b7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:32 +0000
Subject: [PATCH 39/64] fix: keep documentation that contains a comment end
 inside its comment

---
 src/vxlisp/lang-js.go     |  2 +-
 src/vxlisp/lang-native.go | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 49d9de3..3d636d2 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -595,7 +595,7 @@ func JsFromType(
 		"\n    }"
 	output := "" +
 		"\n  /**" +
-		"\n   * " + StringFromStringIndent(doc, "   * ") +
+		"\n   * " + StringFromStringIndent(LangCommentFromText(doc), "   * ") +
 		"\n   */" +
 		"\n  static t_" + typename + " = {}" +
 		"\n  static e_" + typename + " = " + evalue +
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index ceb559f..d32447d 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -518,7 +518,7 @@ func LangConstDoc(
 		doc += "{" + cnst.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentFromText(doc), "   * ") +
 			"\n   */"
 	}
 	return output
@@ -653,6 +653,13 @@ func LangForListHeader(
 	return output
 }
 
+func LangCommentFromText(
+	text string) string {
+	output := strings.ReplaceAll(text, "*/", "* /")
+	output = strings.ReplaceAll(output, "/*", "/ *")
+	return output
+}
+
 func LangNativeFromText(
 	lang *vxlang,
 	text string) string {
@@ -982,7 +989,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentFromText(doc), "   * ") +
 			"\n   */"
 	default:
 		switch NameFromFunc(fnc) {
@@ -1022,7 +1029,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentFromText(doc), "   * ") +
 			"\n   * (func " + fnc.name + ")" +
 			"\n   */"
 	}
@@ -3227,7 +3234,7 @@ func LangTypeDoc(
 		}
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringFromStringIndent(LangCommentFromText(doc), "   * ") +
 			"\n   * (type " + typ.name + ")" +
 			"\n   */"
 	}
-- 
2.43.0


From 4412b4bf3070975707b4af9eb1bbf2dd4e78302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:32 +0000
Subject: [PATCH 40/64] fix: keep documentation of a property from hiding the
 separator after it

---
 src/vxlisp/lang-js.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 3d636d2..b0f8d8e 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -34,7 +34,7 @@ func JsEmptyValueFromTypeIndent(
 					if propdefault != "\"\"" {
 						proptext := "\"" + property.name + "\": " + propdefault
 						if property.doc != "" {
-							proptext += " // " + property.doc
+							proptext += " /* " + LangCommentFromText(property.doc) + " */"
 						}
 						proptexts = append(proptexts, proptext)
 					}
-- 
2.43.0


From 3b6a5985edfacb3fd260eeaaf01583ccd0d315a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:57 +0000
Subject: [PATCH 41/64] fix: leave out null characters of a text in its string
 literal

---
 src/vxlisp/lang-native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index d32447d..80e285b 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -665,6 +665,7 @@ func LangNativeFromText(
 	text string) string {
 	var output = text
 	output = strings.ReplaceAll(output, "\r", "")
+	output = strings.ReplaceAll(output, "\x00", "")
 	// pairs of backslashes are kept apart from the backslashes that need one
 	output = strings.ReplaceAll(output, "\\\\", "\x00")
 	output = strings.ReplaceAll(output, "\\\"", "\x00\"")
-- 
2.43.0


From d5fac317d852a23d2692c85c24f6b45465896534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:01 +0000
Subject: [PATCH 42/64] fix: escape the descriptions of arguments in the
 documentation

---
 src/vxlisp/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 945625e..878f057 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -79,7 +79,7 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 				lineindent + "        <div class=\"tr\">" +
 				lineindent + "          <div class=\"td\">" + HtmlFromString(arg.name) + "</div>" +
 				lineindent + "          <div class=\"td\">" + HtmlLinkFromType(arg.vxtype) + "</div>" +
-				lineindent + "          <div class=\"td\">" + argdoc + "</div>" +
+				lineindent + "          <div class=\"td\">" + HtmlFromString(argdoc) + "</div>" +
 				lineindent + "        </div>"
 		}
 		arguments += "" +
-- 
2.43.0


From b70509497f0677edbb69bd552b412d9f4406d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:11 +0000
Subject: [PATCH 43/64] fix: keep quotes and backslashes of a name inside the
 script of its link

---
 src/vxlisp/doc.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 878f057..963b1fc 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -12,7 +12,7 @@ func HtmlFromConsts(
 	detail := ""
 	for _, cnst := range consts {
 		nav += "" +
-			lineindent + "<li class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlNameFromConst(cnst) + "')\">" +
+			lineindent + "<li class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlScriptFromHtml(HtmlNameFromConst(cnst)) + "')\">" +
 			lineindent + "  (c) " + HtmlFromString(cnst.name) +
 			lineindent + "</li>"
 		detail += "" +
@@ -56,7 +56,7 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 	nav := ""
 	for _, fnc := range listfunc {
 		nav += "" +
-			lineindent + "<li class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlNameFromFunc(fnc) + "')\">" +
+			lineindent + "<li class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlScriptFromHtml(HtmlNameFromFunc(fnc)) + "')\">" +
 			lineindent + "  (f) " + HtmlFromString(fnc.name) +
 			lineindent + "</li>"
 		arguments := "" +
@@ -136,7 +136,7 @@ func HtmlFromListPackage(listpackage []*vxpackage, indent string) (string, strin
 		nav += "" +
 			lineindent + "<details>" +
 			lineindent + "  <summary>" +
-			lineindent + "    <span class=\"npackage\" onclick=\"docjs.navigate('pkg_" + HtmlNameFromPackage(pkg) + "')\">" +
+			lineindent + "    <span class=\"npackage\" onclick=\"docjs.navigate('pkg_" + HtmlScriptFromHtml(HtmlNameFromPackage(pkg)) + "')\">" +
 			HtmlNameFromPackage(pkg) + "</span>" +
 			lineindent + "  </summary>" +
 			lineindent + "  <ul class=\"packagenav\" id=\"n_pkgnav_" + HtmlNameFromPackage(pkg) + "\">" +
@@ -570,6 +570,13 @@ func HtmlFromProject(prj *vxproject) string {
 	return output
 }
 
+func HtmlScriptFromHtml(html string) string {
+	output := html
+	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "\\", "\\\\")
+	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "'", "\\'")
+	return output
+}
+
 func HtmlFromSourceCode(text string, indent string) string {
 	lineindent := "\n" + indent
 	output := "" +
@@ -619,7 +626,7 @@ func HtmlFromListType(listtype []*vxtype, indent string) (string, string) {
 	detail := ""
 	for _, typ := range listtype {
 		nav += "" +
-			lineindent + "<li class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" +
+			lineindent + "<li class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlScriptFromHtml(HtmlNameFromType(typ)) + "')\">" +
 			lineindent + "  (t) " + HtmlFromString(typ.name) +
 			lineindent + "</li>"
 		allowfuncs := ""
@@ -777,43 +784,43 @@ func HtmlFromListType(listtype []*vxtype, indent string) (string, string) {
 
 func HtmlLinkFromConst(cnst *vxconst) string {
 	output := "" +
-		"<span class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlNameFromConst(cnst) + "')\">" + HtmlFromString(cnst.pkgname) + "/" + HtmlFromString(cnst.name) + "</span>"
+		"<span class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlScriptFromHtml(HtmlNameFromConst(cnst)) + "')\">" + HtmlFromString(cnst.pkgname) + "/" + HtmlFromString(cnst.name) + "</span>"
 	return output
 }
 
 func HtmlLinkFromFunc(fnc *vxfunc) string {
 	output := "" +
-		"<span class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlNameFromFunc(fnc) + "')\">" + HtmlFromString(fnc.pkgname) + "/" + HtmlFromString(fnc.name) + "</span>"
+		"<span class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlScriptFromHtml(HtmlNameFromFunc(fnc)) + "')\">" + HtmlFromString(fnc.pkgname) + "/" + HtmlFromString(fnc.name) + "</span>"
 	return output
 }
 
 func HtmlLinkFromPackageName(pkgname string) string {
 	output := "" +
-		"<span class=\"npackage\" onclick=\"docjs.navigate('pkg_" + HtmlFromString(pkgname) + "')\">" + HtmlFromString(pkgname) + "</span>"
+		"<span class=\"npackage\" onclick=\"docjs.navigate('pkg_" + HtmlScriptFromHtml(HtmlFromString(pkgname)) + "')\">" + HtmlFromString(pkgname) + "</span>"
 	return output
 }
 
 func HtmlLinkFromType(typ *vxtype) string {
 	output := "" +
-		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" + HtmlFromString(typ.pkgname) + "/" + HtmlFromString(typ.name) + "</span>"
+		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlScriptFromHtml(HtmlNameFromType(typ)) + "')\">" + HtmlFromString(typ.pkgname) + "/" + HtmlFromString(typ.name) + "</span>"
 	return output
 }
 
 func HtmlLinkNameFromConst(cnst *vxconst) string {
 	output := "" +
-		"<span class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlNameFromConst(cnst) + "')\">" + HtmlFromString(cnst.name) + "</span>"
+		"<span class=\"nconst\" onclick=\"docjs.navigate('const_" + HtmlScriptFromHtml(HtmlNameFromConst(cnst)) + "')\">" + HtmlFromString(cnst.name) + "</span>"
 	return output
 }
 
 func HtmlLinkNameFromFunc(fnc *vxfunc) string {
 	output := "" +
-		"<span class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlNameFromFunc(fnc) + "')\">" + HtmlFromString(fnc.name) + "</span>"
+		"<span class=\"nfunc\" onclick=\"docjs.navigate('func_" + HtmlScriptFromHtml(HtmlNameFromFunc(fnc)) + "')\">" + HtmlFromString(fnc.name) + "</span>"
 	return output
 }
 
 func HtmlLinkNameFromType(typ *vxtype) string {
 	output := "" +
-		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" + HtmlFromString(typ.name) + "</span>"
+		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlScriptFromHtml(HtmlNameFromType(typ)) + "')\">" + HtmlFromString(typ.name) + "</span>"
 	return output
 }
 
-- 
2.43.0


From 843741c5c9a9b9a9b695fa63fb1a71ad3ea43d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:59 +0000
Subject: [PATCH 44/64] fix: translate lambda argument names to identifiers

A lambda argument whose name has a dash, such as key-value, was written
unchanged into the generated lambda, which does not compile.
---
 src/vxlisp/lang-func.go   | 4 ++--
 src/vxlisp/lang-js.go     | 4 ++--
 src/vxlisp/lang-native.go | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index c192ab1..ac88a24 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -965,11 +965,11 @@ func LangFuncValueArgIndex(
 					argtype := lambdaarg.vxtype
 					lambdavar :=
 						LangVal(lang, indent+2, argtype,
-							lambdaarg.name,
+							LangFromName(lambdaarg.name),
 							LangFuncCallF(lang, indent+2,
 								func_any_from_any,
 								LangTypeT(lang, argtype),
-								lambdaarg.name+"_any"))
+								LangFromName(lambdaarg.name)+"_any"))
 					lambdavars = append(lambdavars, lambdavar)
 				}
 				slambdaargs := vx_core.V_stringn_from_liststringn_joinn(lambdaargs, ", ")
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b0f8d8e..75a03d6 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -285,7 +285,7 @@ func JsFromFunc(
 	if fnc.debug {
 		logheader += lineindent + "console.log(\"" + fnc.name + "\", \"start\""
 		for _, arg := range fnc.listarg {
-			logheader += ", \"" + arg.name + "=\", " + arg.alias
+			logheader += ", \"" + arg.name + "=\", " + LangFromName(arg.alias)
 		}
 		logheader += ")\n"
 		logfooter = lineindent + "console.log(\"" + fnc.name + "\", \"end\", output)"
@@ -710,7 +710,7 @@ func JsFromValue(
 						var lambdaargs []string
 						arglist := ListArgLocalFromFunc(argfunc)
 						for _, lambdaarg := range arglist {
-							lambdaargs = append(lambdaargs, lambdaarg.name)
+							lambdaargs = append(lambdaargs, LangFromName(lambdaarg.name))
 						}
 						lambdatext := strings.Join(lambdaargs, ", ")
 						work, msgs := JsFromValue(lang, argvalue, pkgname, fnc, 0, true, test, argsubpath)
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 80e285b..251b33d 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1362,7 +1362,7 @@ func LangFuncLambdaArgAny(
 func LangFuncLambdaArgName(
 	lang *vxlang,
 	lambdaarg vxarg) string {
-	output := lambdaarg.name + "_any"
+	output := LangFromName(lambdaarg.name) + "_any"
 	switch lang {
 	case langkotlin:
 		output += " : vx_core.Type_any"
-- 
2.43.0


From 7730183e9362c527612d4979d5409319dd832ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:59 +0000
Subject: [PATCH 45/64] fix: translate all characters of generic type names in
 C++

Only dashes were replaced in the names of generic parameters.
---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index fa0217e..77000a7 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -3177,7 +3177,7 @@ func CppGenericNameFromType(
 	typ *vxtype) string {
 	output := ""
 	if typ.isgeneric {
-		output = "generic_" + vx_core.V_stringn_from_stringn_findn_replacen(typ.name, "-", "_")
+		output = "generic_" + LangFromName(typ.name)
 	}
 	return output
 }
-- 
2.43.0


From d33c05da7cb58c27eaf91cebc5283aa6928dfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:59 +0000
Subject: [PATCH 46/64] fix: translate package names like all other names

Package references kept an own list of replacements, which differed from
the one used where the package is declared for names with an arrow.
---
 src/vxlisp/lang-native.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 251b33d..0eee4d3 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -2396,11 +2396,7 @@ func LangPkgName(
 	default:
 		output = pkgname
 	}
-	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "<", "lt")
-	output = vx_core.V_stringn_from_stringn_findn_replacen(output, ">", "gt")
-	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "?", "is")
-	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "-", "_")
-	output = vx_core.V_stringn_from_stringn_findn_replacen(output, "/", "_")
+	output = LangFromName(output)
 	return output
 }
 
-- 
2.43.0


From 70c27785873829eec521f503ff43948946c4f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:59 +0000
Subject: [PATCH 47/64] fix: translate package names in imports and namespaces

A package path with a dash was declared as an identifier but imported
with the dash.
---
 src/vxlisp/lang-native.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 0eee4d3..79e587e 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1962,23 +1962,26 @@ func LangImport(
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
 		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
-		name := vx_core.V_stringn_from_string_startn_endn(pkgname, ipos+1, len(pkgname))
-		name = vx_core.V_stringn_uppercasefirst(name)
+		path = LangFromName(path)
+		name := LangPkgName(lang, pkgname)
 		importname := project.javadomain + "." + path + "." + name
 		importline = "import " + importname + lang.lineend
 	case langkotlin:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
 		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
+		path = LangFromName(path)
 		importname := project.javadomain + "." + path + ".*"
 		importline = "import " + importname
 	case langswift:
 		ipos := vx_core.V_intn_from_stringn_findn(pkgname, "/")
 		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		path = vx_core.V_stringn_uppercasefirst(path)
+		path = LangFromName(path)
 		importline = "import " + path
 	default:
 		path := vx_core.V_stringn_from_stringn_findn_replacen(pkgname, "/", ".")
+		path = LangFromName(path)
 		importline = "import " + path + lang.lineend
 	}
 	if !vx_core.V_booleann_from_stringn_containsn(imports, importline) {
@@ -2210,6 +2213,7 @@ func LangPackageImports(
 					}
 				}
 				libpath = vx_core.V_stringn_from_stringn_findn_replacen(libpath, "/", ".")
+				libpath = LangFromName(libpath)
 			}
 			if !isskip {
 				importline := ""
@@ -2241,6 +2245,7 @@ func LangNativePackageLine(
 		csnamespace := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		csnamespace = vx_core.V_stringn_from_stringn_findn_replacen(csnamespace, "/", ".")
 		csnamespace = vx_core.V_stringn_ucasefirst_from_stringn_delimn(csnamespace, ".")
+		csnamespace = LangFromName(csnamespace)
 		output = "namespace " + csnamespace + lang.lineend + "\n"
 	case langjava, langkotlin:
 		output = "package " + pkgpath + lang.lineend + "\n"
@@ -2639,14 +2644,15 @@ func LangTestImport(
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
 		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
-		name := vx_core.V_stringn_from_string_startn_endn(pkgname, ipos+1, len(pkgname))
-		name = vx_core.V_stringn_uppercasefirst(name)
+		path = LangFromName(path)
+		name := LangPkgName(lang, pkgname)
 		importname := project.javadomain + "." + path + "." + name + "Test"
 		importline = "import " + importname + lang.lineend
 	case langkotlin:
 		ipos := vx_core.V_intn_from_stringn_findlastn(pkgname, "/")
 		path := vx_core.V_stringn_from_string_startn_endn(pkgname, 0, ipos)
 		path = vx_core.V_stringn_from_stringn_findn_replacen(path, "/", ".")
+		path = LangFromName(path)
 		importname := project.javadomain + "." + path + ".*"
 		importline = "import " + importname + lang.lineend
 	case langswift:
-- 
2.43.0


From e47085fcd3c76916553d2642fdc91326fb874a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:59 +0000
Subject: [PATCH 48/64] fix: translate package names in the test applications

Only slashes were replaced in the names of test functions and imported
test packages.
---
 src/vxlisp/lang-cpp.go    |  2 +-
 src/vxlisp/lang-js.go     | 10 ++++------
 src/vxlisp/lang-native.go |  8 ++++----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 77000a7..0624db9 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4784,7 +4784,7 @@ func CppAppTest(
 			iscontinue = false
 		}
 		if iscontinue {
-			pkgname := vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_")
+			pkgname := LangFromName(pkg.name)
 			testpackage := pkgname + "_test::test_package(context)"
 			listtestpackage = append(listtestpackage, testpackage)
 			importline := "#include \"" + pkg.name + "_test.hpp\"\n"
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 75a03d6..2a9f5cb 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1354,7 +1354,7 @@ func JsApp(
 				switch contextfunc.pkgname {
 				case "", "vx/core":
 				default:
-					importname := vx_core.V_stringn_from_stringn_findn_replacen(contextfunc.pkgname, "/", "_")
+					importname := LangFromName(contextfunc.pkgname)
 					includetext += "\nimport " + importname + " from \"../src/" + contextfunc.pkgname + ".js\""
 				}
 			}
@@ -1370,7 +1370,7 @@ func JsApp(
 			switch mainfunc.pkgname {
 			case "", "vx/core":
 			default:
-				importname := vx_core.V_stringn_from_stringn_findn_replacen(mainfunc.pkgname, "/", "_")
+				importname := LangFromName(mainfunc.pkgname)
 				includetext += "\nimport " + importname + " from \"../src/" + mainfunc.pkgname + ".js\""
 			}
 			params := ""
@@ -1438,8 +1438,7 @@ func JsAppTest(
 			switch contextfunc.pkgname {
 			case "", "vx/core":
 			default:
-				importname := vx_core.V_stringn_from_stringn_findn_replacen(
-					contextfunc.pkgname, "/", "_")
+				importname := LangFromName(contextfunc.pkgname)
 				includetext += "\nimport " + importname + " from \"../src/" + contextfunc.pkgname + ".js\"\n"
 			}
 		}
@@ -1461,8 +1460,7 @@ func JsAppTest(
 			iscontinue = false
 		}
 		if iscontinue {
-			importname := vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_")
-			importname = vx_core.V_stringn_from_stringn_findn_replacen(importname, "-", "_")
+			importname := LangFromName(pkg.name)
 			importpath := vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "/")
 			packageimport := "import " + importname + "_test from \"./" + importpath + "_test.js\""
 			packagetest := importname + "_test.test_package(context)"
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 79e587e..0cd94fe 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -2940,7 +2940,7 @@ func LangTestPackage(
 	case langcsharp:
 		output = "" +
 			"\n  [Fact]" +
-			"\n  public void test_" + vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_") + "() {" +
+			"\n  public void test_" + LangFromName(pkg.name) + "() {" +
 			LangVar(lang, 2, testpackagetype,
 				"testpackage",
 				LangFuncCallMethod(lang, 2,
@@ -2958,7 +2958,7 @@ func LangTestPackage(
 		output = "" +
 			"\n  @Test" +
 			"\n  @DisplayName(\"" + pkg.name + "\")" +
-			"\n  void test_" + vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_") + "() {" +
+			"\n  void test_" + LangFromName(pkg.name) + "() {" +
 			"\n    com.vxlisp.vx.Test.Type_testpackage testpackage = " + LangPkgName(lang, pkg.name) + "Test.test_package(context)" + lang.lineend +
 			"\n    TestLib.run_testpackage_async(testpackage)" + lang.lineend +
 			"\n  }" +
@@ -2967,14 +2967,14 @@ func LangTestPackage(
 		output = "" +
 			"\n  @Test" +
 			"\n  @DisplayName(\"" + pkg.name + "\")" +
-			"\n  fun test_" + vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_") + "() : Unit {" +
+			"\n  fun test_" + LangFromName(pkg.name) + "() : Unit {" +
 			"\n    val testpackage : vx_test.Type_testpackage = " + LangPkgName(lang, pkg.name) + "Test.test_package(context)" + lang.lineend +
 			"\n    TestLib.run_testpackage_async(testpackage)" + lang.lineend +
 			"\n  }" +
 			"\n"
 	case langswift:
 		output = "" +
-			"\n  func test_" + vx_core.V_stringn_from_stringn_findn_replacen(pkg.name, "/", "_") + "() {" +
+			"\n  func test_" + LangFromName(pkg.name) + "() {" +
 			LangVar(lang, 2, testpackagetype,
 				"testpackage",
 				LangPkgName(lang, pkg.name)+
-- 
2.43.0


From 82847c12d6b8b21777686d4c61bfbc0dfb4e7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:32 +0000
Subject: [PATCH 49/64] fix: translate the names of repeated arguments in the
 JavaScript function bodies

A repeated argument whose name has a dash was declared with the translated
name and then assigned and spread with the untranslated one.
---
 src/vxlisp/lang-js.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 2a9f5cb..1d1d19f 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -309,7 +309,8 @@ func JsFromFunc(
 		}
 		for _, arg := range fnc.listarg {
 			if arg.multi {
-				defaultvalue += lineindent + arg.alias + " = vx_core.f_new_from_type(" + LangTypeTGeneric(lang, arg.vxtype) + ", ..." + arg.alias + ")"
+				argname := LangFromName(arg.alias)
+				defaultvalue += lineindent + argname + " = vx_core.f_new_from_type(" + LangTypeTGeneric(lang, arg.vxtype) + ", ..." + argname + ")"
 			}
 		}
 	}
-- 
2.43.0


From 0215456887531677405336950885ad5293a2c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:40 +0000
Subject: [PATCH 50/64] fix: translate the names of generic types in generated
 arguments like elsewhere

Only dashes were replaced, so an argument for a generic type whose name has
other marks was declared under a name that is not an identifier.
---
 src/vxlisp/lang.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index 77cadb3..a117a34 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -352,9 +352,7 @@ func LangFromValue(
 func LangArgGenericFromType(
 	lang *vxlang,
 	typ *vxtype) vxarg {
-	typename := vx_core.V_stringn_from_stringn_findn_replacen(
-		typ.name, "-", "_")
-	output := NewArg("generic_" + typename)
+	output := NewArg("generic_" + LangFromName(typ.name))
 	output.vxtype = typ
 	output.isgeneric = true
 	return output
-- 
2.43.0


From 9eefcaa46cdceb7d3577f187f76ab0f7ee4563af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:03 +0000
Subject: [PATCH 51/64] fix: refer to the selected overload when a function is
 used as a value

A reference to an overloaded function always named the first overload in
all languages except C++.
---
 src/vxlisp/lang-js.go | 2 +-
 src/vxlisp/lang.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 1d1d19f..201d746 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -820,7 +820,7 @@ func JsFromValue(
 		//if valfunc.async {
 		//	valstr += "await "
 		//}
-		valstr += LangFromName(valfunc.pkgname) + ".t_" + LangFromName(valfunc.alias)
+		valstr += LangFromName(valfunc.pkgname) + ".t_" + LangFuncName(valfunc)
 		output = sindent + valstr
 	case ":type":
 		valtype := TypeFromValue(value)
diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index a117a34..6de37db 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -295,7 +295,7 @@ func LangFromValue(
 	case ":funcref":
 		valfunc := FuncFromValue(value)
 		valstr = ""
-		valstr += LangPkgName(lang, valfunc.pkgname) + lang.typeref + "t_" + LangFromName(valfunc.alias)
+		valstr += LangPkgName(lang, valfunc.pkgname) + lang.typeref + "t_" + LangFuncName(valfunc)
 		output = valstr
 	case ":type":
 		valtype := TypeFromValue(value)
-- 
2.43.0


From ab5f48b9698cdad350e617dd7f78000974a3546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:03 +0000
Subject: [PATCH 52/64] fix: declare the C++ tests of every overload

The header declared the test of the first overload once per overload and
none of the others.
---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 0624db9..f9b6367 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4345,7 +4345,7 @@ func CppTestFromPackage(
 				functexts += test
 				testall = append(
 					testall, pkgname+"_test::f_"+LangFromName(fnc.alias)+LangIndexFromFunc(fnc)+"(context)")
-				funcheaders += "\n  vx_test::Type_testcase f_" + LangFromName(fnc.alias) + "(vx_core::Type_context context);"
+				funcheaders += "\n  vx_test::Type_testcase f_" + LangFromName(fnc.alias) + LangIndexFromFunc(fnc) + "(vx_core::Type_context context);"
 			}
 			coverdoctotal += 1
 			if fnc.doc != "" {
-- 
2.43.0


From 01fb31dde62d578e7216991d4f4553a2e43ebfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:03 +0000
Subject: [PATCH 53/64] fix: list the selected overloads in the JavaScript
 function lists

---
 src/vxlisp/lang-js.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 201d746..eb894d4 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -855,7 +855,7 @@ func JsNamesFromListFunc(
 	listfunc []*vxfunc) string {
 	var outputtypes []string
 	for _, fnc := range listfunc {
-		name := "f_" + LangFromName(fnc.alias)
+		name := "f_" + LangFuncName(fnc)
 		if fnc.pkgname != "" {
 			name = LangFromName(fnc.pkgname) + "." + name
 		}
-- 
2.43.0


From 72d3f29d0e1f6cd458641a44d99c192c58bbf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:03 +0000
Subject: [PATCH 54/64] fix: number the Swift types of overloaded functions

All overloads of a function were declared as the same type.
---
 src/vxlisp/code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/code.go b/src/vxlisp/code.go
index a78c203..977d63c 100644
--- a/src/vxlisp/code.go
+++ b/src/vxlisp/code.go
@@ -2078,6 +2078,9 @@ func type_from_vxtype(
 	type_vxtype *vxtype) *vx_core.Type_type {
 	var output *vx_core.Type_type = vx_core.V_type_create()
 	var name string = type_vxtype.name
+	if type_vxtype.isfunc {
+		name += StringIndexFromFunc(type_vxtype.vxfunc)
+	}
 	var pkgname string = type_vxtype.pkgname
 	var path string = name
 	if pkgname != "" {
-- 
2.43.0


From 4fd3a740a9c6d30ec489a3ccda141435673899b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 55/64] fix: do not index the arguments of fn, let and copy
 when there are none

---
 src/vxlisp/func.go  | 14 +++++++++-----
 src/vxlisp/value.go | 21 +++++++++++++--------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index b2b3429..2c4659b 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -400,8 +400,10 @@ func FuncFnGetArgList(fnc *vxfunc) []vxarg {
 	var output []vxarg
 	switch NameFromFunc(fnc) {
 	case "vx/core/fn", "vx/core/let":
-		arg0 := fnc.listarg[0]
-		output = ListArgFromValue(arg0.value)
+		if len(fnc.listarg) > 0 {
+			arg0 := fnc.listarg[0]
+			output = ListArgFromValue(arg0.value)
+		}
 	}
 	return output
 }
@@ -409,9 +411,11 @@ func FuncFnGetArgList(fnc *vxfunc) []vxarg {
 func FuncFnSetListArg(fnc *vxfunc, listarg []vxarg) *vxfunc {
 	switch NameFromFunc(fnc) {
 	case "vx/core/fn", "vx/core/let":
-		arg0 := fnc.listarg[0]
-		arg0.value = ValueSetListArg(arg0.value, listarg)
-		fnc.listarg[0] = arg0
+		if len(fnc.listarg) > 0 {
+			arg0 := fnc.listarg[0]
+			arg0.value = ValueSetListArg(arg0.value, listarg)
+			fnc.listarg[0] = arg0
+		}
 	}
 	return fnc
 }
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index d0f7213..72bd815 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -695,12 +695,15 @@ func ValueLink(
 		}
 		switch fnc.name {
 		case "fn", "let":
-			arglet := fnc.listarg[0]
-			listarglet := ListArgFromValue(arglet.value)
-			listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
-			msgblock = MsgblockAddBlock(msgblock, msgs)
-			arglet.value = NewValueFromArgList(listarglet)
-			fnc.listarg[0] = arglet
+			listargfn := fnc.listarg
+			if len(listargfn) > 0 {
+				arglet := listargfn[0]
+				listarglet := ListArgFromValue(arglet.value)
+				listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
+				msgblock = MsgblockAddBlock(msgblock, msgs)
+				arglet.value = NewValueFromArgList(listarglet)
+				listargfn[0] = arglet
+			}
 		}
 		listscope = ListScopeAddFuncLocalArg(listscope, fnc)
 		chgargs, msgs := ListArgLink(
@@ -1040,8 +1043,10 @@ func ValueValidate(
 				if fnc.vxtype.isgeneric {
 					switch NameFromFunc(fnc) {
 					case "vx/core/copy":
-						arg := fnc.listarg[0]
-						fnc.vxtype = arg.vxtype
+						if len(fnc.listarg) > 0 {
+							arg := fnc.listarg[0]
+							fnc.vxtype = arg.vxtype
+						}
 					default:
 						if fnc.vxtype.isgeneric && expectedtype.name != "" {
 							fnc.vxtype = expectedtype
-- 
2.43.0


From 9acbf7d9f12b359975c92ff77ad630a3dc6a8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 56/64] fix: do not take a single quote for a pair of quotes

---
 src/vxlisp/primative.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index f378cc9..a796f72 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -20,7 +20,8 @@ func BooleanFromStringEquals(str string, equals string) bool {
 }
 
 func BooleanFromStringStartsEnds(str string, starts string, ends string) bool {
-	return strings.HasPrefix(str, starts) && strings.HasSuffix(str, ends)
+	return len(str) >= len(starts)+len(ends) &&
+		strings.HasPrefix(str, starts) && strings.HasSuffix(str, ends)
 }
 
 func BooleanIsIntFromString(str string) bool {
@@ -244,9 +245,9 @@ func StringOutdentLines(str string, indent string) string {
 
 func StringRemoveQuotes(str string) string {
 	var output = ""
-	if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
+	if BooleanFromStringStartsEnds(str, "`", "`") {
 		output = str[1 : len(str)-1]
-	} else if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
+	} else if BooleanFromStringStartsEnds(str, "\"", "\"") {
 		output = str[1 : len(str)-1]
 		output = vx_core.V_stringn_from_stringn_findn_replacen(output, "\\\"", "\"")
 	} else {
-- 
2.43.0


From 5517facc7b6e3b50ed9ac1bdef12c26c8fdfdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 57/64] fix: match functions against a function type without
 signature

---
 src/vxlisp/signature.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/signature.go b/src/vxlisp/signature.go
index 471e192..ae42f7d 100644
--- a/src/vxlisp/signature.go
+++ b/src/vxlisp/signature.go
@@ -39,7 +39,9 @@ func IsSignatureMatch(
 	} else if templatetype.isfunc {
 		var templatesignature *vxsignature
 		for i, actualsignature := range actual.listsignature {
-			if i >= templatelen {
+			if templatelen == 0 {
+				templatesignature = emptysignature
+			} else if i >= templatelen {
 				templatesignature = template.listsignature[templatelen-1]
 			} else {
 				templatesignature = template.listsignature[i]
-- 
2.43.0


From b9bea709788b1fe34417dad5d212c316f579a424 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 58/64] fix: look for the end of a section after its start

---
 src/vxlisp/primative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index a796f72..b42b86b 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -211,7 +211,7 @@ func StringFromStringFromTo(text string, from string, to string) string {
 			}
 		}
 		if to != "" {
-			ito = vx_core.V_intn_from_stringn_findn(text, to)
+			ito = IntFromStringFindStart(text, to, ifrom)
 			if ito < 0 {
 				ito = len(text)
 			}
-- 
2.43.0


From ecc73b646cf3cbb8679bad8eb8162be4df4f8958 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 59/64] fix: skip custom interface lines that open no body

---
 src/vxlisp/lang-native.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 0cd94fe..489fc8d 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -3379,7 +3379,10 @@ func LangTypeInterfaceCustom(
 	}
 	ipos2 := vx_core.V_intn_from_stringn_findlastn(
 		customline, "{")
-	output := customline[ipos1:ipos2-1] + lang.lineend
+	output := ""
+	if ipos2 > ipos1 {
+		output = customline[ipos1:ipos2-1] + lang.lineend
+	}
 	return output
 }
 
-- 
2.43.0


From cb2e6058ed4f756d5b0cc7c3290f807fc54434bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 60/64] fix: keep generic names that have no number

---
 src/vxlisp/lang-native.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 489fc8d..d71b844 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -3779,7 +3779,9 @@ func LangTypeNameSimple(
 				if vx_core.V_booleann_from_stringn_startsn(alias, "generic-") {
 					alias = vx_core.V_stringn_from_stringn_findn_replacen(alias, "generic-", "")
 					ipos := vx_core.V_intn_from_stringn_findlastn(alias, "-")
-					alias = alias[0:ipos]
+					if ipos >= 0 {
+						alias = alias[0:ipos]
+					}
 				}
 			} else {
 				alias = LangGenericFromType(lang, typ)
-- 
2.43.0


From 308deaabb50345f21cfec2d65d5eb5b936c869cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:05:14 +0000
Subject: [PATCH 61/64] fix: go on without a log when the log file cannot be
 created

---
 src/vxlisp/msg.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/msg.go b/src/vxlisp/msg.go
index 5ce8bf7..a6cd524 100644
--- a/src/vxlisp/msg.go
+++ b/src/vxlisp/msg.go
@@ -133,7 +133,8 @@ func MsgStartLog() {
 	var err error
 	outputFile, err = os.Create("build.log")
 	if err != nil {
-		panic(err)
+		fmt.Println(err)
+		return
 	}
 	outputWriter = bufio.NewWriter(outputFile)
 	outputlog = true
@@ -218,9 +219,11 @@ func MsgblockLog(
 	msgblock *vxmsgblock) {
 	text := StringFromMsgblock(msgblock)
 	fmt.Println(text)
-	_, err := fmt.Fprintln(outputWriter, text)
-	if err != nil {
-		fmt.Println(err)
+	if outputlog {
+		_, err := fmt.Fprintln(outputWriter, text)
+		if err != nil {
+			fmt.Println(err)
+		}
 	}
 }
 
-- 
2.43.0


From 2889e369234f9f925d6ce9a977fce7030c37d624 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:09:44 +0000
Subject: [PATCH 62/64] fix: do not use a :headertype type that was not found

---
 src/vxlisp/lang-cpp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f9b6367..512e97f 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1347,12 +1347,12 @@ func CppFromPackage(
 				typebodys += typebody
 				typebodyfooters += typebodyfooter
 				specialheader += typeheader
+				packageheader += "" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
+					"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
+				packagestatic += "" +
+					"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 			}
-			packageheader += "" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " e_" + LangNameFromType(lang, typ) + " = NULL;" +
-				"\n  " + LangNameTypeFullFromType(lang, typ) + " t_" + LangNameFromType(lang, typ) + " = NULL;"
-			packagestatic += "" +
-				"\n      maptype[\"" + typ.name + "\"] = " + LangTypeT(lang, typ) + ";"
 		}
 	}
 	remainingkeys := ListStringFromListStringNotMatch(typkeys, specialtypeorder)
-- 
2.43.0


From 838f281b88a53cc82a4dcb9ddbfd177f0f10ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:10:19 +0000
Subject: [PATCH 63/64] fix: generate tests of a project without vx/core

---
 src/vxlisp/project.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 8b99794..914e8c3 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -223,6 +223,8 @@ func PackageCoreFromProject(
 	if !ok {
 		MsgLog(
 			"Error: vx/core package not found")
+		output = NewPackage("vx/core")
+		output.project = project
 	}
 	return output
 }
-- 
2.43.0


From 4cc6d883d134be7fc7c729ee03e7775aca586c6f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 10:14:16 +0000
Subject: [PATCH 64/64] fix: report source and test commands without a language

---
 src/vxlisp/project.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 914e8c3..6f23777 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -173,6 +173,10 @@ func MsgblockValidateFromProjectCmd(
 	msgblock := NewMsgBlock("MsgblockValidateFromProjectCmd")
 	switch command.code {
 	case ":source", ":test":
+		if command.lang == nil {
+			msg := NewMsg("Language Missing: (project (cmd " + command.name + " :lang))")
+			msgblock = MsgblockAddError(msgblock, msg)
+		}
 		if command.context != "" && FuncFromProjectFuncname(project, command.context) == emptyfunc {
 			msg := NewMsg("Context Not Found: (project (cmd :context " + command.context + "))")
 			msgblock = MsgblockAddError(msgblock, msg)
-- 
2.43.0

