From 0f3c344862a90b5b30f6f630722ae25e34445c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 01/49] fix: report failed writes and closes of output files

---
 pkg/build/file.go            | 36 ++++++++++++++++++++++++++++++++++++
 pkg/dart/dart.go             | 10 ++--------
 pkg/golang/gloang.go         | 10 ++--------
 pkg/java/java.go             | 10 ++--------
 pkg/typescript/typescript.go | 10 ++--------
 5 files changed, 44 insertions(+), 32 deletions(-)
 create mode 100644 pkg/build/file.go

diff --git a/pkg/build/file.go b/pkg/build/file.go
new file mode 100644
index 0000000..3bcb944
--- /dev/null
+++ b/pkg/build/file.go
@@ -0,0 +1,36 @@
+package build
+
+import "os"
+
+// File is an output file that remembers the first error of its writes.
+type File struct {
+	file *os.File
+	err  error
+}
+
+// CreateFile creates or truncates an output file.
+func CreateFile(name string) (*File, error) {
+	file, err := os.Create(name)
+	if err != nil {
+		return nil, err
+	}
+	return &File{file: file}, nil
+}
+
+func (f *File) WriteString(text string) (int, error) {
+	if nil != f.err {
+		return 0, f.err
+	}
+	n, err := f.file.WriteString(text)
+	f.err = err
+	return n, err
+}
+
+// Close closes the file and returns the first error of writing or closing it.
+func (f *File) Close() error {
+	err := f.file.Close()
+	if nil != f.err {
+		return f.err
+	}
+	return err
+}
diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..58c35f8 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -140,16 +140,10 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
+	fc, err := build.CreateFile(out)
 	if err != nil {
 		return err
 	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
 	_, _ = fc.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -167,7 +161,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Close()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..90bc431 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -139,16 +139,10 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 }
 
 func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := os.Create(out)
+	fc, err := build.CreateFile(out)
 	if err != nil {
 		return err
 	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
 
 	_, _ = fc.WriteString("package " + packages + "\n\n")
 
@@ -174,7 +168,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 	}
 	code := data.GetCode().String()
 	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	return fc.Close()
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..bb9af0a 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -135,16 +135,10 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := os.Create(out)
+	fc, err := build.CreateFile(out)
 	if err != nil {
 		return err
 	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
 
 	_, _ = fc.WriteString("package " + packages + ";\n\n")
 
@@ -163,7 +157,7 @@ func writerFile(data *build.Writer, packages string, out string) error {
 	}
 	_, _ = fc.WriteString("\n")
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Close()
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..2d9beb2 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -158,16 +158,10 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
+	fc, err := build.CreateFile(out)
 	if err != nil {
 		return err
 	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -185,7 +179,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Close()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From 0674841e501503074c8fd8699775eb1923151626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 02/49] fix: exit with a non-zero status when the build fails

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1c81fa2 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -46,12 +47,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 032651b7ea1922dae8dc92f902cd1bdf47e8bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 03/49] fix: check and generate files in a fixed order

---
 pkg/build/build.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..7f9bf8d 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -131,7 +132,8 @@ func Build(out string, in string, typ string, pack string) error {
 		return err
 	}
 
-	for path, file := range build.pkg.Files {
+	for _, path := range build.sortedPaths() {
+		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
 			out:   filepath.Join(build.param.out, name),
@@ -146,8 +148,19 @@ func Build(out string, in string, typ string, pack string) error {
 	return nil
 }
 
+// sortedPaths returns the paths of the files in a fixed order.
+func (b *Builder) sortedPaths() []string {
+	paths := make([]string, 0, len(b.pkg.Files))
+	for path := range b.pkg.Files {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
+
 func (b *Builder) checkFiles() error {
-	for path, file := range b.pkg.Files {
+	for _, path := range b.sortedPaths() {
+		file := b.pkg.Files[path]
 		imports := map[string]void{
 			path: {},
 		}
-- 
2.43.0


From 1e1a485c3bf9ca5cd3ed8569e5c6b7ded6d992e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 04/49] fix: keep the directory part of the output path when it
 is the working directory

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 7f9bf8d..5b632b0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -136,7 +136,7 @@ func Build(out string, in string, typ string, pack string) error {
 		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
-			out:   filepath.Join(build.param.out, name),
+			out:   filepath.Clean(build.param.out) + string(filepath.Separator) + name,
 			pkg:   build.pkg,
 			pack:  build.param.pack,
 			build: build,
-- 
2.43.0


From d0339e71c85fcf80f681d2e27f903b68e7650d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 05/49] fix: reject a leading dot instead of scanning it for
 ever

---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 135ef4b23b26ff371932db8ad06e2e1b00330e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 06/49] fix: report the errors of a file whose first token is
 invalid

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From 7a04d3eb102792122e0d09ee3abf1b71f2d48f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 07/49] fix: report methods that take or return an array or a
 map

---
 pkg/parser/parser.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..fe7383c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,20 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodType parses the type of a method's parameter or result, which is
+// neither an array nor a map.
+func (p *parser) parseMethodType() *ast.VarType {
+	pos := p.pos
+	typ, ok := p.parseVarType().(*ast.VarType)
+	if !ok {
+		p.error(pos, "parameter and result of a method cannot be an array or a map")
+		return &ast.VarType{
+			TypeExpr: &ast.BadExpr{From: pos, To: p.pos},
+		}
+	}
+	return typ
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +616,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From ddcb8e3942bac60916be74883c9432ec1139f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 08/49] fix: report map keys of unknown, array and map types

---
 pkg/build/build.go | 2 +-
 pkg/build/data.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 5b632b0..392311e 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -278,7 +278,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..9a5ed6c 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.Key.Pos()),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From d0675e6b671c5e4d9cb078c5e2ce2bc65cc28faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 09/49] fix: report imports of paths without a directory part

---
 pkg/parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 1c4fe92..785b143 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -139,7 +139,7 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 			spec.Path.Value = imp
 		}
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From e7454be61375f865fe7bb3b3143b40bc165531e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 10/49] fix: report bind and verify tags that name no method or
 item

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 0dd8086144efc51831595c72bbad1323021ef57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 11/49] fix: read every where condition of a db tag at its own
 length

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From 2d0701b5debc98e477feaeefe2a4ebf271891bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 12/49] fix: generate from sources whose name is shorter than
 the .hbuf suffix

---
 pkg/dart/dart.go             | 5 +++--
 pkg/golang/gloang.go         | 2 +-
 pkg/java/java.go             | 5 +++--
 pkg/typescript/typescript.go | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 58c35f8..7174143 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -65,7 +66,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -255,7 +256,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 90bc431..a7eccd6 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -94,7 +94,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
 		dir = filepath.Join(dir, pack)
diff --git a/pkg/java/java.go b/pkg/java/java.go
index bb9af0a..4722aab 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -73,7 +74,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -263,7 +264,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 2d9beb2..69b00d8 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"strconv"
 )
 
@@ -77,7 +78,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -299,7 +300,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s
 	} else {
-- 
2.43.0


From 6533bdade2e9ffc19c2500889106fb0a62e2fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 13/49] fix: skip references to unknown fields in db conditions
 like the other ones

---
 pkg/golang/database.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..676aa21 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -399,6 +399,12 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 				if t != "$" {
 					field = b.findField(fields, t[2:len(t)-1])
 				}
+				if nil == field {
+					return scanner.Error{
+						//Pos: b.Position(data.Name.Pos()),
+						Msg: "Invalid name: " + t[2:len(t)-1],
+					}
+				}
 
 				buf.Code(".T(")
 				if build.IsNil(field.Field.Type) {
-- 
2.43.0


From e662ddbe0efdcedccd13ddff8eab7e81d6aae1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 14/49] fix: convert names with leading, trailing and repeated
 underscores

---
 pkg/build/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 392311e..a2e379f 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -441,6 +441,9 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
@@ -455,9 +458,15 @@ func StringToFirstLower(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
+	if 0 == len(ret) {
+		return ret
+	}
 	return strings.ToLower(ret[:1]) + ret[1:]
 }
 
-- 
2.43.0


From 34dc0fef774122cb1224b04a92a70a89d99b2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 15/49] fix: report types that inherit from themselves

---
 pkg/build/build.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index a2e379f..898c55f 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -170,6 +170,42 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, path := range b.sortedPaths() {
+		for _, s := range b.pkg.Files[path].Specs {
+			if spec, ok := s.(*ast.TypeSpec); ok {
+				err := b.checkInherit(spec, map[*ast.TypeSpec]bool{})
+				if err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// checkInherit reports a type that inherits from itself.
+func (b *Builder) checkInherit(spec *ast.TypeSpec, heirs map[*ast.TypeSpec]bool) error {
+	var extends []*ast.Extends
+	switch t := spec.Type.(type) {
+	case *ast.DataType:
+		extends = t.Extends
+	case *ast.ServerType:
+		extends = t.Extends
+	}
+	if heirs[spec] {
+		return scanner.Error{
+			Pos: b.fset.Position(spec.Name.Pos()),
+			Msg: "Type inherits from itself: " + spec.Name.Name,
+		}
+	}
+	heirs[spec] = true
+	defer delete(heirs, spec)
+	for _, item := range extends {
+		err := b.checkInherit(item.Name.Obj.Decl.(*ast.TypeSpec), heirs)
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 6d4d9f27c0e449847dd1d3bd6c330bc51b41490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 16/49] fix: look verify rules of inherited fields up where the
 field is declared

---
 pkg/dart/ui.go           | 2 +-
 pkg/dart/verify.go       | 2 +-
 pkg/golang/server.go     | 3 ++-
 pkg/golang/verify.go     | 2 +-
 pkg/typescript/verify.go | 2 +-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..2e9fbdb 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,7 +509,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		isArray := build.IsArray(field.Type)
 		isNil := build.IsNil(field.Type)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..4b1bccf 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -31,7 +31,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..23f6049 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -117,7 +117,8 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
+	param := method.Param.Type().(*ast.Ident).Obj
+	verify, err := build.GetVerify(param.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, param.Data.(*ast.File), b.GetDataType)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..dab0293 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -68,7 +68,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..32a0df2 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -29,7 +29,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, data.Name.Obj.Data.(*ast.File), b.GetDataType)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f29a099282f4fd8c26bd1b782ebbf3f0e514908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 17/49] fix: report table types that need a key field but have
 no fields

---
 pkg/golang/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 676aa21..e1872ee 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -79,6 +79,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		return nil
 	}
 
+	if typ == fType && nil == key && (fDbs[0].Del || fDbs[0].Remove || "" != fDbs[0].Update || "" != fDbs[0].Set || "" != fDbs[0].Get) {
+		return build.NewError(typ.Name.Pos(), "Not find key field: "+typ.Name.Name)
+	}
+
 	if 0 == len(fDbs[0].Table) {
 		b.printScanData(dst, typ, dbs[0], wFields, key)
 		b.printNameData(dst, typ)
-- 
2.43.0


From 0819594fcadc3f5d7c09b992155c005a3c5e0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 18/49] fix: check the keys of every tag, not only of the first

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 898c55f..3463398 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -359,7 +359,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 0c1ed9624e7b90d2c146e53d320fd3cf9b4556ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 19/49] fix: check the tags of enums like those of the other
 types

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 00ab211c89f4e0762845dd355f45d29f6be39f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 20/49] fix: a database type whose table is an enum or server
 crashed the go target

---
 pkg/golang/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index e1872ee..d025623 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -65,7 +65,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if nil == table {
 			return nil
 		}
-		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if !ok {
+			return build.NewError(typ.Name.Pos(), "The table of a database type must be data: "+typ.Name.Name)
+		}
+		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
 			return nil
-- 
2.43.0


From 662962285376bd26a98e6fb9865af354abfb47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 21/49] fix: calls of methods without result work

The router had no FormData and the client no ToData for such methods, so
the runtime library called a nil function.
---
 pkg/golang/server.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 23f6049..6ab330b 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -207,14 +207,16 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\tret")
 		}
 		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
-		if !isMethod {
-			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
+		dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
+		if isMethod {
+			dst.Code("\t\t\treturn nil, nil\n")
+		} else {
 			dst.Code("\t\t\tvar req ")
 			b.printType(dst, method.Result.Type(), true)
 			dst.Code("\n")
 			dst.Code("\t\t\treturn &req, json.Unmarshal(buf, &req)\n")
-			dst.Code("\t\t},\n")
 		}
+		dst.Code("\t\t},\n")
 		dst.Code("\t\tFormData: func(data hbuf.Data) ([]byte, error) {\n")
 		dst.Code("\t\t\treturn json.Marshal(&data)\n")
 		dst.Code("\t\t},\n")
@@ -301,11 +303,9 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		dst.Import("encoding/json", "")
 		dst.Code("\t\t\t\t\treturn &req, json.Unmarshal(buf, &req)\n")
 		dst.Code("\t\t\t\t},\n")
-		if !isMethod {
-			dst.Code("\t\t\t\tFormData: func(data hbuf.Data) ([]byte, error) {\n")
-			dst.Code("\t\t\t\t\treturn json.Marshal(&data)\n")
-			dst.Code("\t\t\t\t},\n")
-		}
+		dst.Code("\t\t\t\tFormData: func(data hbuf.Data) ([]byte, error) {\n")
+		dst.Code("\t\t\t\t\treturn json.Marshal(&data)\n")
+		dst.Code("\t\t\t\t},\n")
 		dst.Code("\t\t\t\tSetInfo: func(ctx context.Context) {\n")
 
 		au := b.getTag(method.Tags)
-- 
2.43.0


From 8d046cf8b6439782484e3146a00de9e41657aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 22/49] fix: generated clients use the declared parameter name

The body of a client method always sent req, which is undeclared if the
schema names the parameter otherwise.
---
 pkg/golang/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 6ab330b..e8cc64e 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -206,7 +206,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 		if isMethod {
 			dst.Code("\t\t\treturn nil, nil\n")
-- 
2.43.0


From df133762506de835f161352101f3c1db9a4fbfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 23/49] fix: bindings between servers

A bound method assumed a parameter named req, a bound type in its own
package and a result, used IDL instead of Go names for the method, and
errors while printing it were dropped.
---
 pkg/golang/server.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index e8cc64e..be525b1 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -80,8 +80,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
@@ -101,6 +99,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 			return err
 		}
 		if bind == nil {
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			if isSub {
 				dst.Code("\treturn ")
 			} else {
@@ -109,7 +108,10 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if err != nil {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -122,25 +124,33 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	req := build.StringToFirstLower(method.ParamName.Name)
+	result := "nil, "
+	if isSub {
+		result = ""
+	}
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
+		dst.Code("\tif err := " + req + ".Verify(ctx); err != nil {\n")
+		dst.Code("\t\treturn " + result + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
-	if !isSub {
-		dst.Code("\treps, err := ")
-	} else {
+	bindSub := bind.Method.Result.Type().(*ast.Ident).Name == "void"
+	if bindSub {
 		dst.Code("\terr := ")
+	} else if isSub {
+		dst.Code("\t_, err := ")
+	} else {
+		dst.Code("\treps, err := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
-	dst.Code("req.")
-	b.printType(dst, bind.Method.Param.Type(), true)
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
+	dst.Code(req + ".").Code(bind.Method.Param.Type().(*ast.Ident).Name)
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	dst.Code("\t\treturn " + result + "err\n")
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
@@ -148,8 +158,11 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("&")
 		b.printType(dst, method.Result.Type(), true)
 		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
-		dst.Code(": *reps}, ")
+		if !bindSub {
+			dst.Code(bind.Method.Result.Type().(*ast.Ident).Name)
+			dst.Code(": *reps")
+		}
+		dst.Code("}, ")
 	}
 	dst.Code("nil\n")
 	return nil
-- 
2.43.0


From 19a6cc29ecc2786908117ab98c966779de709d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 24/49] fix: operations by key use the key's column

Delete, remove, update, set and get of a table addressed the column id
whatever the key field's column is called.
---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index d025623..3ccb62b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -124,7 +124,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -133,7 +133,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -166,7 +166,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -180,7 +180,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -194,7 +194,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From a48dafeb7ee082efa14df7b834547e487e08612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 25/49] fix: updates are restricted by the request's own
 conditions

DbUpdate took its conditions from the fields that are written, so an
update by a request that writes the table's set fields changed every row.
---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 3ccb62b..d5adf63 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -770,7 +770,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-- 
2.43.0


From 42e17aecb48a608817fb7b96336b7f796ce4e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 26/49] fix: map by a field whose name has capitals

The map tag was lower-cased as a whole, so its key field was not found
and no DbMap was generated.
---
 pkg/golang/gloang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index a7eccd6..dd64f8e 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -323,7 +323,7 @@ func (b *Builder) getKey(dst *build.Writer, fields []*build.DBField, name string
 	where.Packages = dst.Packages
 
 	for _, field := range fields {
-		if field.Field.Name.Name == name {
+		if strings.EqualFold(field.Field.Name.Name, name) {
 			where.Code(build.StringToFirstLower(field.Field.Name.Name))
 			b.printType(param, field.Field.Type, false)
 			return param, where, true
-- 
2.43.0


From f02a47e3f8844c0788640095acc787306ead3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 27/49] fix: cache times with equal bounds or only one bound

Reads panicked in rand.Intn if both bounds were equal or the given one
lay beyond the default of the other.
---
 pkg/golang/database.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index d5adf63..f875fcd 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -24,6 +24,7 @@ func getCache(name string, tags []*ast.Tag) *cache {
 		min: 2 * 60 * 60,
 		max: 3 * 60 * 60,
 	}
+	hasMin, hasMax := false, false
 	if nil != val.KV {
 		for _, item := range val.KV {
 			if "min" == item.Name.Name {
@@ -32,17 +33,24 @@ func getCache(name string, tags []*ast.Tag) *cache {
 					//TODO 添加错误处理
 					return nil
 				}
-				c.min = val
+				c.min, hasMin = val, true
 			} else if "max" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
 					//TODO 添加错误处理
 					return nil
 				}
-				c.max = val
+				c.max, hasMax = val, true
 			}
 		}
 	}
+	if c.max < c.min {
+		if hasMax && !hasMin {
+			c.min = c.max
+		} else {
+			c.max = c.min
+		}
+	}
 	return c
 }
 
@@ -512,7 +520,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -579,7 +587,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -628,7 +636,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -908,7 +916,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
-- 
2.43.0


From ec3ebc12775b7eccfc3db42d67a6be2440e03ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 28/49] fix: writes through another type invalidate the table's
 cache

A request type without a cache tag of its own changed a cached table
without invalidating its cached reads.
---
 pkg/golang/database.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index f875fcd..674ac0a 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -64,6 +64,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	}
 
 	c := getCache(typ.Name.Name, typ.Tags)
+	wc := c
 
 	fDbs := dbs
 	fields := wFields
@@ -78,6 +79,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			return build.NewError(typ.Name.Pos(), "The table of a database type must be data: "+typ.Name.Name)
 		}
 		typ = data
+		if nil == wc {
+			// Changes invalidate what reads of the table have cached.
+			wc = getCache(typ.Name.Name, typ.Tags)
+		}
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
 			return nil
@@ -135,7 +140,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
+		b.printDeleteData(dst, dbs[0], w, fType, nil != wc)
 	}
 
 	if fDbs[0].Remove {
@@ -144,7 +149,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
+		b.printRemoveData(dst, dbs[0], w, fType, nil != wc)
 	}
 
 	val = strings.ToLower(fDbs[0].Insert)
@@ -154,7 +159,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c)
+		b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, wc)
 	}
 
 	val = strings.ToLower(fDbs[0].Inserts)
@@ -163,7 +168,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertListData(dst, typ, dbs[0], f, key, nil != c)
+		b.printInsertListData(dst, typ, dbs[0], f, key, nil != wc)
 	}
 
 	val = strings.ToLower(fDbs[0].Update)
@@ -177,7 +182,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
+		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, wc)
 	}
 
 	val = strings.ToLower(fDbs[0].Set)
@@ -191,7 +196,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
+		b.printSetData(dst, typ, val, dbs[0], w, f, fType, wc)
 	}
 
 	val = strings.ToLower(fDbs[0].Get)
-- 
2.43.0


From 14d346faf47b8f2938f0db736f19991b4915256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 29/49] fix: import of the cache package for counts and writes

Types with cached counts or writes only were generated without it.
---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 674ac0a..82def03 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -623,6 +623,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -662,6 +663,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -690,6 +692,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -716,6 +719,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -741,6 +745,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -789,6 +794,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -821,6 +827,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From cef0989df400bf7be0ad7ec4439f93d4844d19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 30/49] fix: conditions on the elements of a list that has
 fewer elements

---
 pkg/golang/database.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 82def03..faa34ae 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -317,18 +317,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					_ = b.printParam(where, item, field, fields, "", "\ts")
 				}
 			} else {
-				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + fieldName + " && " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
-					array := field.Field.Type.(*ast.ArrayType)
-					if array.VType.Empty {
-						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
-					}
-					where.Code(" {\n")
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
-					where.Code("\t}\n")
-				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+				where.Code("\tif nil != g." + fieldName + " && " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
+				array := field.Field.Type.(*ast.ArrayType)
+				if array.VType.Empty {
+					where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
 				}
+				where.Code(" {\n")
+				_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+				where.Code("\t}\n")
 			}
 		}
 	}
-- 
2.43.0


From 0a506bb3a0147315708ed0d3fb34fece8e504b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 31/49] fix: grouping by more than one field

---
 pkg/golang/database.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index faa34ae..7f52e55 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -334,16 +334,16 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 		for _, field := range fields {
 			group := field.Dbs[0].Group
 			if 0 < len(group) {
-				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
-				}
 				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
-				} else {
-					where.Code("\ts.T(\", \")")
+					isFist = false
+					where.Code("\tgroup := \" GROUP BY \"\n")
 				}
-
+				if build.IsNil(field.Field.Type) {
+					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\n")
+				}
+				where.Code("\ts.T(group)")
 				_ = b.printParam(where, group, field, fields, "", "")
+				where.Code("\tgroup = \", \"\n")
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
-- 
2.43.0


From 230db36fef1e485915a67e56ec23a233e74337f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 32/49] fix: verify bounds of int64 and uint64 fields

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index dab0293..5bae803 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -141,13 +141,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 7838424dd9b5a23afe0289f2996bf023d1d2dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 33/49] fix: verify bounds of date fields

---
 pkg/golang/verify.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 5bae803..9523f27 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -155,6 +155,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("time", "")
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -162,7 +163,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -172,7 +173,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						dst.Code("{ //" + f.Min + "--" + f.Max + "\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From b1eba00949e683d297c983f6ddede5ce767b77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 34/49] fix: verify bounds of decimal fields

---
 pkg/golang/verify.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 9523f27..e38450b 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -181,6 +181,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -190,7 +191,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From bf4ffa931c42778af94e0bd2d1baee0fb61b2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 35/49] fix: read columns by their declared name

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 7f52e55..e86b57b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -270,14 +270,14 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From 315e58504458633fa90ad34c3cc7f0461999e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 36/49] fix: drop what an undecodable cache entry has filled in

---
 pkg/golang/database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index e86b57b..fe5aca1 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -502,6 +502,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 		dst.Code("\tif list != nil {\n")
 		dst.Code("\t\treturn *list, nil\n")
 		dst.Code("\t}\n")
+		dst.Code("\tret = make([]" + dName + ", 0)\n")
 	}
 	dst.Import("database/sql", "")
 	dst.Code("\t_, err := s.Query(ctx, func(rows *sql.Rows) (bool, error) {\n")
@@ -569,6 +570,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		dst.Code("\tif list != nil {\n")
 		dst.Code("\t\treturn *list, nil\n")
 		dst.Code("\t}\n")
+		dst.Code("\tret = make(map[" + kType.String() + "]" + dName + ")\n")
 	}
 	dst.Import("database/sql", "")
 	dst.Code("\t_, err := s.Query(ctx, func(rows *sql.Rows) (bool, error) {\n")
@@ -910,6 +912,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		dst.Code("\tif cv != nil {\n")
 		dst.Code("\t\treturn *cv, nil\n")
 		dst.Code("\t}\n")
+		dst.Code("\tval = nil\n")
 	}
 	dst.Import("database/sql", "")
 	dst.Code("\t_, err := s.Query(ctx, func(rows *sql.Rows) (bool, error) {\n")
-- 
2.43.0


From 244e6d484c69326847f33a154287fdd0fc7e8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 37/49] fix: any one token after a method was skipped

The closing brace of a service on one line, or a stray token, was taken
for the end of the method's line.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index fe7383c..8ca5459 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -874,7 +874,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 7d07e1f2a1fd16fa5dbcf45f606a7520f5004522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 38/49] fix: any token was accepted for the '=' of an enum item

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 8ca5459..453bafb 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -843,7 +843,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	name := p.parseIdent()
 
 	var id *ast.BasicLit
-	p.next()
+	p.expect(token.ASSIGN)
 	if p.tok != token.INT {
 		p.errorExpected(p.pos, "not find int")
 	}
-- 
2.43.0


From 3950ff021ec579bda5f1d2e8609cd16f569f384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 39/49] fix: a package clause without a language was ignored
 silently

---
 pkg/parser/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 453bafb..d696bce 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -987,10 +987,7 @@ func (p *parser) parsePackageSpec() *ast.PackageSpec {
 		return nil
 	}
 
-	var ident *ast.Ident
-	if token.IDENT == p.tok {
-		ident = p.parseIdent()
-	}
+	ident := p.parseIdent()
 
 	if token.ASSIGN != p.tok {
 		p.error(pos, "invalid import path:= ")
-- 
2.43.0


From a77b9ae5d56d8a17af9bcda789c9689d8b210f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 40/49] fix: report sources whose output files have the same
 name

The outputs of the later one silently replaced those of the other.
---
 pkg/build/build.go           | 48 ++++++++++++++++++++++++------------
 pkg/dart/dart.go             | 14 +++++------
 pkg/golang/gloang.go         | 14 +++++------
 pkg/java/java.go             | 10 ++++----
 pkg/typescript/typescript.go | 16 ++++++------
 5 files changed, 59 insertions(+), 43 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 3463398..7acaed3 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -1,6 +1,7 @@
 package build
 
 import (
+	"errors"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
@@ -72,10 +73,11 @@ func CheckType(typ string) bool {
 }
 
 type Param struct {
-	out   string
-	pack  string
-	build *Builder
-	pkg   *ast.Package
+	out    string
+	pack   string
+	source string
+	build  *Builder
+	pkg    *ast.Package
 }
 
 func (p *Param) GetOut() string {
@@ -94,19 +96,32 @@ func (p *Param) GetPkg() *ast.Package {
 	return p.pkg
 }
 
+// CreateFile creates or truncates an output file, which no other source may
+// have created in this build.
+func (p *Param) CreateFile(name string) (*File, error) {
+	name = filepath.Clean(name)
+	if source, ok := p.build.created[name]; ok {
+		return nil, errors.New("Sources " + source + " and " + p.source + " have the same output file: " + name)
+	}
+	p.build.created[name] = p.source
+	return CreateFile(name)
+}
+
 type Builder struct {
-	fset  *token.FileSet
-	pkg   *ast.Package
-	build Function
-	param *Param
+	fset    *token.FileSet
+	pkg     *ast.Package
+	build   Function
+	param   *Param
+	created map[string]string
 }
 
 func NewBuilder(build Function, param *Param) *Builder {
 	return &Builder{
-		fset:  token.NewFileSet(),
-		pkg:   ast.NewPackage(),
-		build: build,
-		param: param,
+		fset:    token.NewFileSet(),
+		pkg:     ast.NewPackage(),
+		build:   build,
+		param:   param,
+		created: map[string]string{},
 	}
 }
 
@@ -136,10 +151,11 @@ func Build(out string, in string, typ string, pack string) error {
 		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
-			out:   filepath.Clean(build.param.out) + string(filepath.Separator) + name,
-			pkg:   build.pkg,
-			pack:  build.param.pack,
-			build: build,
+			out:    filepath.Clean(build.param.out) + string(filepath.Separator) + name,
+			source: path,
+			pkg:    build.pkg,
+			pack:   build.param.pack,
+			build:  build,
 		})
 		if err != nil {
 			return err
diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 7174143..95975fe 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -74,19 +74,19 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, filepath.Join(dir, name+".data.dart"))
+		err := writerFile(param, dst.data, filepath.Join(dir, name+".data.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, filepath.Join(dir, name+".enum.dart"))
+		err = writerFile(param, dst.enum, filepath.Join(dir, name+".enum.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, filepath.Join(dir, name+".server.dart"))
+		err = writerFile(param, dst.server, filepath.Join(dir, name+".server.dart"))
 		if err != nil {
 			return err
 		}
@@ -94,13 +94,13 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 
 	printLanguge(dst.ui)
 	if 0 < dst.ui.GetCode().Len() {
-		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.dart"))
+		err = writerFile(param, dst.ui, filepath.Join(dir, name+".ui.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = writerFile(dst.verify, filepath.Join(dir, name+".verify.dart"))
+		err = writerFile(param, dst.verify, filepath.Join(dir, name+".verify.dart"))
 		if err != nil {
 			return err
 		}
@@ -140,8 +140,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
-	fc, err := build.CreateFile(out)
+func writerFile(param *build.Param, data *build.Writer, out string) error {
+	fc, err := param.CreateFile(out)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index dd64f8e..a53a20b 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -106,31 +106,31 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := b.writerFile(dst.data, dst.data.Packages, filepath.Join(dir, name+".data.go"), 1)
+		err := b.writerFile(param, dst.data, dst.data.Packages, filepath.Join(dir, name+".data.go"), 1)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = b.writerFile(dst.enum, dst.enum.Packages, filepath.Join(dir, name+".enum.go"), 0)
+		err = b.writerFile(param, dst.enum, dst.enum.Packages, filepath.Join(dir, name+".enum.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = b.writerFile(dst.server, dst.server.Packages, filepath.Join(dir, name+".server.go"), 0)
+		err = b.writerFile(param, dst.server, dst.server.Packages, filepath.Join(dir, name+".server.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.database.GetCode().Len() {
-		err = b.writerFile(dst.database, dst.database.Packages, filepath.Join(dir, name+".database.go"), 0)
+		err = b.writerFile(param, dst.database, dst.database.Packages, filepath.Join(dir, name+".database.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = b.writerFile(dst.verify, dst.verify.Packages, filepath.Join(dir, name+".verify.go"), 0)
+		err = b.writerFile(param, dst.verify, dst.verify.Packages, filepath.Join(dir, name+".verify.go"), 0)
 		if err != nil {
 			return err
 		}
@@ -138,8 +138,8 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	return nil
 }
 
-func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := build.CreateFile(out)
+func (b *Builder) writerFile(param *build.Param, data *build.Writer, packages string, out string, i int) error {
+	fc, err := param.CreateFile(out)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 4722aab..0fe8120 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -82,19 +82,19 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, dst.Packages, filepath.Join(dir, name+"Data.java"))
+		err := writerFile(param, dst.data, dst.Packages, filepath.Join(dir, name+"Data.java"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, dst.Packages, filepath.Join(dir, name+"Enum.java"))
+		err = writerFile(param, dst.enum, dst.Packages, filepath.Join(dir, name+"Enum.java"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, dst.Packages, filepath.Join(dir, name+"Server.java"))
+		err = writerFile(param, dst.server, dst.Packages, filepath.Join(dir, name+"Server.java"))
 		if err != nil {
 			return err
 		}
@@ -135,8 +135,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := build.CreateFile(out)
+func writerFile(param *build.Param, data *build.Writer, packages string, out string) error {
+	fc, err := param.CreateFile(out)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 69b00d8..e6f561d 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -86,39 +86,39 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, filepath.Join(dir, name+".data.ts"))
+		err := writerFile(param, dst.data, filepath.Join(dir, name+".data.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, filepath.Join(dir, name+".enum.ts"))
+		err = writerFile(param, dst.enum, filepath.Join(dir, name+".enum.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, filepath.Join(dir, name+".server.ts"))
+		err = writerFile(param, dst.server, filepath.Join(dir, name+".server.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	printLanguge(dst.ui.GetLangs(), dst.lang)
 	if 0 < dst.lang.GetCode().Len() {
-		err = writerFile(dst.lang, filepath.Join(dir, name+".lang.ts"))
+		err = writerFile(param, dst.lang, filepath.Join(dir, name+".lang.ts"))
 		if err != nil {
 			return err
 		}
 	}
 
 	if 0 < dst.ui.GetCode().Len() {
-		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.tsx"))
+		err = writerFile(param, dst.ui, filepath.Join(dir, name+".ui.tsx"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = writerFile(dst.verify, filepath.Join(dir, name+".verify.ts"))
+		err = writerFile(param, dst.verify, filepath.Join(dir, name+".verify.ts"))
 		if err != nil {
 			return err
 		}
@@ -158,8 +158,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
-	fc, err := build.CreateFile(out)
+func writerFile(param *build.Param, data *build.Writer, out string) error {
+	fc, err := param.CreateFile(out)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a62e4db2627e4eb3acc89237fdfec4bcc1ae83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 41/49] fix: Go code names a type the same way where it is
 declared and where it is used

Types whose names are not in hump form gave code that does not compile.
---
 pkg/golang/data.go   | 2 +-
 pkg/golang/gloang.go | 2 +-
 pkg/golang/server.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..9070aa2 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName(t.Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index a53a20b..f9b84e4 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -234,7 +234,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName(t.Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index be525b1..8c26180 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -146,7 +146,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	}
 	dst.Code(pack)
 	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
-	dst.Code(req + ".").Code(bind.Method.Param.Type().(*ast.Ident).Name)
+	dst.Code(req + ".").Code(build.StringToHumpName(bind.Method.Param.Type().(*ast.Ident).Name))
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
@@ -159,7 +159,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		b.printType(dst, method.Result.Type(), true)
 		dst.Code("{")
 		if !bindSub {
-			dst.Code(bind.Method.Result.Type().(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(bind.Method.Result.Type().(*ast.Ident).Name))
 			dst.Code(": *reps")
 		}
 		dst.Code("}, ")
-- 
2.43.0


From b41ecd317a62c057e88bd4f33c5599baacaeb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 42/49] fix: TypeScript code names a type the same way where it
 is declared and where it is used

Types whose names are not in hump form gave code that fails when it is used.
---
 pkg/typescript/data.go       | 8 ++++----
 pkg/typescript/typescript.go | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..42c2135 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index e6f561d..1d45b8b 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 			}
 		} else {
 			if isRecordKey {
@@ -327,14 +327,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code("()")
 			}
 		} else {
-- 
2.43.0


From 5911aae6d3d5ead57c3cca3a20568de17a2bf494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 43/49] fix: TypeScript code read unsigned 64-bit numbers as
 signed ones

---
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 42c2135..c4cd580 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -229,10 +229,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					zero, unsigned := "Long.ZERO", ""
+					if build.Uint64 == build.BaseType(t.Name) {
+						zero, unsigned = "Long.UZERO", ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + zero + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 1d45b8b..5749f07 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -20,7 +20,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
-- 
2.43.0


From 00d52a384471574bc91ed81a531b0894153e2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 44/49] fix: TypeScript code took 0 for the default of enums
 without an item for 0

---
 pkg/typescript/data.go       |  2 +-
 pkg/typescript/typescript.go | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index c4cd580..21d2b68 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -200,7 +200,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					if empty {
 						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(" + enumDefault(t) + ") : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 5749f07..5eb83b1 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -318,6 +318,24 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	return p[5:]
 }
 
+// enumDefault 枚举的默认值：0，没有 0 时为第一项
+func enumDefault(t *ast.Ident) string {
+	spec, ok := t.Obj.Decl.(*ast.TypeSpec)
+	if !ok {
+		return "0"
+	}
+	enum, ok := spec.Type.(*ast.EnumType)
+	if !ok || 0 == len(enum.Items) {
+		return "0"
+	}
+	for _, item := range enum.Items {
+		if id, err := strconv.ParseInt(item.Id.Value, 0, 64); nil == err && 0 == id {
+			return "0"
+		}
+	}
+	return enum.Items[0].Id.Value
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool) string {
 	switch expr.(type) {
 	case *ast.Ident:
@@ -328,7 +346,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				dst.Code(pkg)
 				dst.Code(".")
 				dst.Code(build.StringToHumpName(t.Name))
-				dst.Code(".valueOf(0)")
+				dst.Code(".valueOf(" + enumDefault(t) + ")")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
-- 
2.43.0


From e8603a60f192f662944918be442d72b12f1919f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 45/49] fix: TypeScript code lost the map entries whose value
 is null

---
 pkg/typescript/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 21d2b68..04106f0 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -421,12 +421,18 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			if t.VType.IsEmpty() {
+				dst.Code(" ?? null")
+			}
 			dst.Code("))")
 		} else {
 			dst.Code("h.convertRecord(" + key + name + ", (key, value) => new h.RecordEntry(")
 			b.printToJson(dst, "", "key", t.Key, data, empty, true)
 			dst.Code(",")
 			b.printToJson(dst, "", "value", t.VType, data, empty, false)
+			if t.VType.IsEmpty() {
+				dst.Code(" ?? null")
+			}
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From 0ada9351c27529e1d4c1ccfdda01e7fdb79903ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 46/49] fix: TypeScript code read lists of uint8 from Go
 services as empty

---
 pkg/typescript/data.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 04106f0..433d5d2 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -183,6 +183,15 @@ func (b *Builder) printCopy(dst *build.Writer, self, name string, expr ast.Expr,
 	}
 }
 
+// isBytes 是否为 uint8[]，Go 将其编码为 base64 字符串
+func isBytes(t *ast.ArrayType) bool {
+	if t.VType.IsEmpty() {
+		return false
+	}
+	id, ok := t.VType.Type().(*ast.Ident)
+	return ok && nil == id.Obj && build.Uint8 == build.BaseType(id.Name)
+}
+
 func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr ast.Expr, data *ast.DataType, empty bool, isRecordKey bool) {
 	switch expr.(type) {
 	case *ast.Ident:
@@ -303,12 +312,18 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code("null == " + name + " ? null : (")
+			if isBytes(t) {
+				dst.Code("\"string\" === typeof " + v + " ? Array.from(atob(" + v + "), (item) => item.charCodeAt(0)) : ")
+			}
 			dst.Code("!h.isArray(" + v + ") ? null : ")
 			dst.Code("(h.convertArray(" + v + ", (item) => ")
 			b.printFormMap(dst, "item", "item", t.VType, data, empty, false)
 			dst.Code(")))")
 		} else {
 			dst.Code("null == " + name + " ? [] : (")
+			if isBytes(t) {
+				dst.Code("\"string\" === typeof " + v + " ? Array.from(atob(" + v + "), (item) => item.charCodeAt(0)) : ")
+			}
 			dst.Code("!h.isArray(" + v + ") ? [] : ")
 			dst.Code("(h.convertArray(" + v + ", (item) => ")
 			b.printFormMap(dst, "item", "item", t.VType, data, empty, false)
-- 
2.43.0


From 469d9d253dcdf9bbb93b0a0e41fa0b3ba2a98d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 47/49] fix: comments of several lines broke generated code

---
 pkg/ast/ast.go     | 18 ++++++++++++------
 pkg/golang/data.go |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index bd3ed75..22b03f7 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -40,6 +40,11 @@ func stripTrailingWhitespace(s string) string {
 	return s[0:i]
 }
 
+// Ends of lines in any of the generated languages.
+var lineEnds = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\u2028", "\n", "\u2029", "\n")
+
+// Text returns the text of the comments for use behind a "//": further lines
+// have comment markers of their own.
 func (g *CommentGroup) Text() string {
 	if g == nil {
 		return ""
@@ -76,7 +81,7 @@ func (g *CommentGroup) Text() string {
 		}
 
 		// Split on newlines.
-		cl := strings.Split(c, "\n")
+		cl := strings.Split(lineEnds.Replace(c), "\n")
 
 		// Walk lines, stripping trailing white space and adding to list.
 		for _, l := range cl {
@@ -95,12 +100,13 @@ func (g *CommentGroup) Text() string {
 	}
 	lines = lines[0:n]
 
-	// Add final "" entry to get trailing newline from Join.
-	if n > 0 && lines[n-1] != "" {
-		lines = append(lines, "")
+	for n > 0 && lines[n-1] == "" {
+		n--
 	}
-
-	return strings.Join(lines, "\n")
+	if n == 0 {
+		return ""
+	}
+	return strings.Join(lines[:n], "\n//") + "\n"
 }
 
 // isDirective reports whether c is a comment directive.
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 9070aa2..ec1b991 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -64,7 +64,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(build.StringFillRight(field.name, ' ', nameLen+1))
 		dst.Code(build.StringFillRight(field.typ, ' ', typLen+1))
 		dst.Code(build.StringFillRight(field.tag, ' ', tagLen+1))
-		dst.Code("//").Code(strings.Trim(strings.ReplaceAll(field.comment, "\n", " "), " ")).Code("\n")
+		dst.Code("//").Code(strings.Trim(strings.ReplaceAll(strings.ReplaceAll(field.comment, "\n//", " "), "\n", " "), " ")).Code("\n")
 	}
 	dst.Code("}\n\n")
 
-- 
2.43.0


From cab6bb117c69c8605af923a69a3a19bc79b54875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 48/49] fix: parameters with certain names broke generated
 clients and servers

---
 pkg/build/build.go       | 28 +++++++++++++++++++++++++++
 pkg/dart/server.go       |  6 +++---
 pkg/golang/server.go     | 42 +++++++++++++++++++++++++++++-----------
 pkg/java/server.go       |  6 +++---
 pkg/typescript/server.go |  6 +++---
 5 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 7acaed3..e77a5ad 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -505,6 +505,34 @@ func StringToHumpName(val string) string {
 	return ret
 }
 
+// Names that the generated code gives a meaning of its own where a method has
+// its parameter: words of the languages and what the code around it uses.
+var paramReserved = func() map[string]bool {
+	names := make(map[string]bool)
+	for _, name := range strings.Fields(`
+abstract any arguments as assert async await bool boolean break byte case catch chan char class const context continue
+ctx data debugger default defer delete do double else enum erro err error eval export extends fallthrough false final finally
+float for func function go goto hbuf if implements import in instanceof int interface invoke is json let long map
+native new nil null package private protected public r range reps ret rethrow return rpc s select server short static
+strictfp string struct super switch synchronized this throw throws transient true try type typeof undefined var void
+volatile while with yield`) {
+		names[name] = true
+	}
+	return names
+}()
+
+// ParamName returns the name of the parameter of a method in generated code.
+func ParamName(method *ast.FuncType) string {
+	name := StringToFirstLower(method.ParamName.Name)
+	if "" == name || '0' <= name[0] && name[0] <= '9' {
+		return "req" + name
+	}
+	if paramReserved[name] {
+		return name + "_"
+	}
+	return name
+}
+
 // StringToFirstLower 转首字母小写
 func StringToFirstLower(val string) string {
 	if 0 == len(val) {
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..5685705 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -38,7 +38,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + build.ParamName(method))
 		dst.Code(", [Context? ctx]);\n\n")
 	}
 	dst.Code("}\n\n")
@@ -64,7 +64,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + build.ParamName(method))
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
@@ -75,7 +75,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(build.ParamName(method))
 		dst.Code(", ")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(".fromMap, ")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c26180..21f6704 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -45,7 +45,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(b.paramName(dst, method, nil))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -80,10 +80,16 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
+		bind, err := build.GetBinding(method.Tags, dst.File, b.GetDataType)
+		if nil != err {
+			return err
+		}
+		name := b.paramName(dst, method, bind)
+
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(name)
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		if isSub {
@@ -94,10 +100,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 			dst.Code(", error) {\n")
 		}
 
-		bind, err := build.GetBinding(method.Tags, dst.File, b.GetDataType)
-		if nil != err {
-			return err
-		}
 		if bind == nil {
 			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			if isSub {
@@ -108,7 +110,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			err = b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub, name)
 			if err != nil {
 				return err
 			}
@@ -118,13 +120,31 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 	return nil
 }
 
-func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
+// paramName returns a name for the parameter of a method that hides no package
+// the method needs.
+func (b *Builder) paramName(dst *build.Writer, method *ast.FuncType, bind *build.Binding) string {
+	name := build.ParamName(method)
+	used := []ast.Expr{method.Param.Type()}
+	if "void" != method.Result.Type().(*ast.Ident).Name {
+		used = append(used, method.Result.Type())
+	}
+	if nil != bind {
+		used = append(used, bind.Server.Name)
+	}
+	for _, typ := range used {
+		if b.getPackage(dst, typ) == name+"." {
+			return name + "_"
+		}
+	}
+	return name
+}
+
+func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool, req string) error {
 	param := method.Param.Type().(*ast.Ident).Obj
 	verify, err := build.GetVerify(param.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, param.Data.(*ast.File), b.GetDataType)
 	if err != nil {
 		return err
 	}
-	req := build.StringToFirstLower(method.ParamName.Name)
 	result := "nil, "
 	if isSub {
 		result = ""
@@ -202,7 +222,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("func (r *" + serverName + "Client) ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(b.paramName(dst, method, nil))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -219,7 +239,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + b.paramName(dst, method, nil) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 		if isMethod {
 			dst.Code("\t\t\treturn nil, nil\n")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..c9c4c4a 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -38,7 +38,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + build.ParamName(method))
 		dst.Code(", Server.Context ctx) throws Exception ;\n\n")
 	}
 	dst.Code("\t}\n\n")
@@ -70,7 +70,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + build.ParamName(method))
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
@@ -79,7 +79,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(build.ParamName(method))
 		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code("Impl.class), (data)-> new ")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..c7354ca 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -32,7 +32,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(build.ParamName(method) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -75,7 +75,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(build.ParamName(method) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -99,7 +99,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(build.ParamName(method))
 		dst.Code(", ")
 		if isMethod {
 			dst.Code("null, null);\n")
-- 
2.43.0


From d0c4965672f4c2aa98ef6094a04b2e29093c3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 49/49] fix: inheritance through many layers took exponential
 time

---
 pkg/build/build.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index e77a5ad..4305efd 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -186,10 +186,11 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	done := map[*ast.TypeSpec]bool{}
 	for _, path := range b.sortedPaths() {
 		for _, s := range b.pkg.Files[path].Specs {
 			if spec, ok := s.(*ast.TypeSpec); ok {
-				err := b.checkInherit(spec, map[*ast.TypeSpec]bool{})
+				err := b.checkInherit(spec, map[*ast.TypeSpec]bool{}, done)
 				if err != nil {
 					return err
 				}
@@ -200,7 +201,10 @@ func (b *Builder) checkFiles() error {
 }
 
 // checkInherit reports a type that inherits from itself.
-func (b *Builder) checkInherit(spec *ast.TypeSpec, heirs map[*ast.TypeSpec]bool) error {
+func (b *Builder) checkInherit(spec *ast.TypeSpec, heirs, done map[*ast.TypeSpec]bool) error {
+	if done[spec] {
+		return nil
+	}
 	var extends []*ast.Extends
 	switch t := spec.Type.(type) {
 	case *ast.DataType:
@@ -217,11 +221,12 @@ func (b *Builder) checkInherit(spec *ast.TypeSpec, heirs map[*ast.TypeSpec]bool)
 	heirs[spec] = true
 	defer delete(heirs, spec)
 	for _, item := range extends {
-		err := b.checkInherit(item.Name.Obj.Decl.(*ast.TypeSpec), heirs)
+		err := b.checkInherit(item.Name.Obj.Decl.(*ast.TypeSpec), heirs, done)
 		if err != nil {
 			return err
 		}
 	}
+	done[spec] = true
 	return nil
 }
 
@@ -407,11 +412,15 @@ func GetKeyValue(kvs []*ast.KeyValue, key string) (*ast.KeyValue, bool) {
 	return nil, false
 }
 
-func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+func enumField(typ *ast.DataType, fields map[string]struct{}, done map[*ast.DataType]bool, call func(field *ast.Field, data *ast.DataType) error) error {
+	if done[typ] {
+		return nil
+	}
+	done[typ] = true
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		data := types.Type.(*ast.DataType)
-		err := enumField(data, fields, call)
+		err := enumField(data, fields, done, call)
 		if err != nil {
 			return err
 		}
@@ -431,7 +440,7 @@ func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *a
 }
 func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType) error) error {
 	fields := map[string]struct{}{}
-	return enumField(typ, fields, call)
+	return enumField(typ, fields, map[*ast.DataType]bool{}, call)
 }
 
 func CheckSuperField(name string, typ *ast.DataType) bool {
@@ -447,7 +456,11 @@ func CheckSuperField(name string, typ *ast.DataType) bool {
 	return false
 }
 
-func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+func enumMethod(typ *ast.ServerType, fields map[string]struct{}, done map[*ast.ServerType]bool, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+	if done[typ] {
+		return nil
+	}
+	done[typ] = true
 	for _, field := range typ.Methods {
 		if _, ok := fields[field.Name.Name]; ok {
 			continue
@@ -462,7 +475,7 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		server := types.Type.(*ast.ServerType)
-		err := enumMethod(server, fields, call)
+		err := enumMethod(server, fields, done, call)
 		if err != nil {
 			return err
 		}
@@ -472,7 +485,7 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 
 func EnumMethod(typ *ast.ServerType, call func(method *ast.FuncType, server *ast.ServerType) error) error {
 	fields := map[string]struct{}{}
-	return enumMethod(typ, fields, call)
+	return enumMethod(typ, fields, map[*ast.ServerType]bool{}, call)
 }
 
 func CheckSuperMethod(name string, typ *ast.ServerType) bool {
-- 
2.43.0

