From 1212c3da1a4b56d7ab8fb121b2132ea44e78ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 001/123] fix: Scope.Prefix returned an empty string for a
 namespace without a prefix

---
 xmltree/xmltree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..4edb1d4 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -158,6 +158,9 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 			}
 		}
 	}
+	if qname == "" {
+		return name.Local
+	}
 	return qname
 }
 
-- 
2.43.0


From 874b6154ebaeef1d72d6bb9e4b0a94e13d14aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 002/123] fix: Scope.Prefix used prefixes hidden by an inner
 declaration

---
 xmltree/xmltree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 4edb1d4..a2db1f8 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -148,7 +148,7 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 		return "xmlns:" + name.Local
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
-		if scope.ns[i].Space == name.Space {
+		if scope.ns[i].Space == name.Space && !scope.shadowed(i) {
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
@@ -164,6 +164,17 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 	return qname
 }
 
+// shadowed reports whether the i'th declaration in the scope is hidden
+// by a later declaration of the same prefix.
+func (scope *Scope) shadowed(i int) bool {
+	for _, ns := range scope.ns[i+1:] {
+		if ns.Local == scope.ns[i].Local {
+			return true
+		}
+	}
+	return false
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
-- 
2.43.0


From 1502c485f07462c21a1eb535c5434ee38d7166d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 003/123] fix: scopes returned by JoinScope could overwrite
 each other's declarations

---
 xmltree/xmltree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index a2db1f8..5cfdb59 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,9 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	ns := make([]xml.Name, 0, len(outer.ns)+len(inner.ns))
+	ns = append(ns, outer.ns...)
+	return &Scope{append(ns, inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From 9fc4b73b4504a916ef91e06987d73969f5b2238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 004/123] fix: MarshalIndent ignored its prefix argument

---
 xmltree/marshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..668229e 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -135,6 +135,7 @@ func diffScope(parent, child *Element) Scope {
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
+		io.WriteString(e.w, e.prefix)
 		for i := 0; i < depth; i++ {
 			io.WriteString(e.w, e.indent)
 		}
@@ -155,11 +156,10 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 }
 
 func (e *encoder) encodeCloseTag(el *Element, depth int) error {
-	if e.pretty {
+	if e.pretty && len(el.Children) > 0 {
+		io.WriteString(e.w, e.prefix)
 		for i := 0; i < depth; i++ {
-			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
-			}
+			io.WriteString(e.w, e.indent)
 		}
 	}
 	if err := tagTmpl.ExecuteTemplate(e.w, "end", el); err != nil {
-- 
2.43.0


From d9ea8ebcc8e90a1237bbe6d346681d73de00aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 005/123] fix: attribute values and namespace names were
 written without escaping

---
 xmltree/marshal.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 668229e..e7f7b2a 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -11,17 +11,27 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
+	"escape": escape,
+}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+// escape replaces the characters that cannot appear as-is in
+// the value of an attribute.
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From e474b80c2387c19ef75e14c415da84c8c16cc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 006/123] fix: attributes in the default namespace were written
 without a prefix

---
 xmltree/marshal.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index e7f7b2a..b0d3c17 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"io"
+	"strings"
 	"text/template"
 )
 
@@ -12,11 +13,12 @@ import (
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
 var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
-	"escape": escape,
+	"escape":   escape,
+	"attrname": attrName,
 }).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .StartElement.Attr}} {{attrname $.Scope .Name -}}="{{escape .Value}}"{{end -}}
 	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
@@ -32,6 +34,22 @@ func escape(s string) (string, error) {
 	return buf.String(), err
 }
 
+// attrName is like the Prefix method, but never relies on the default
+// namespace, which does not apply to the names of attributes.
+func attrName(scope Scope, name xml.Name) string {
+	qname := scope.Prefix(name)
+	if name.Space == "" || strings.Contains(qname, ":") {
+		return qname
+	}
+	for i := len(scope.ns) - 1; i >= 0; i-- {
+		ns := scope.ns[i]
+		if ns.Space == name.Space && ns.Local != "" && !scope.shadowed(i) {
+			return ns.Local + ":" + name.Local
+		}
+	}
+	return qname
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From 9dcee749d68a40cc2b11bd3237b783cf791013d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 007/123] fix: namespace declarations of a marshalled element
 could be duplicated, missing or left in force where they should not be

---
 xmltree/marshal.go | 60 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index b0d3c17..47867e8 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -108,7 +108,7 @@ type encoder struct {
 // be "pulled" in, so they can be resolved properly. This is trickier than
 // just defining everything at the top level because there may be conflicts
 // introduced by the modifications.
-func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) error {
+func (e *encoder) encode(el *Element, inherited map[string]string, visited map[*Element]struct{}) error {
 	if len(visited) > recursionLimit {
 		// We only return I/O errors
 		return nil
@@ -118,7 +118,7 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 		e.w.Write([]byte("<!-- cycle detected -->"))
 		return nil
 	}
-	scope := diffScope(parent, el)
+	scope := diffScope(inherited, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
 		return err
 	}
@@ -129,9 +129,10 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 			return nil
 		}
 	}
+	inherited = inherit(inherited, scope)
 	for i := range el.Children {
 		visited[el] = struct{}{}
-		if err := e.encode(&el.Children[i], el, visited); err != nil {
+		if err := e.encode(&el.Children[i], inherited, visited); err != nil {
 			return err
 		}
 		delete(visited, el)
@@ -142,23 +143,46 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	return nil
 }
 
-// diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
-func diffScope(parent, child *Element) Scope {
-	if parent == nil { // root element
-		return child.Scope
-	}
-	childScope := child.Scope
-	parentScope := parent.Scope
-	for len(parentScope.ns) > 0 && len(childScope.ns) > 0 {
-		if childScope.ns[0] == parentScope.ns[0] {
-			childScope.ns = childScope.ns[1:]
-			parentScope.ns = parentScope.ns[1:]
-		} else {
-			break
+// diffScope returns the namespace declarations that el needs so that
+// the prefixes in its Scope have the same meaning in the output, where
+// inherited holds the declarations made by the tags around it.
+func diffScope(inherited map[string]string, el *Element) Scope {
+	var diff Scope
+	seen := make(map[string]bool)
+	for i := len(el.Scope.ns) - 1; i >= 0; i-- {
+		ns := el.Scope.ns[i]
+		if seen[ns.Local] {
+			// hidden by a closer declaration
+			continue
+		}
+		seen[ns.Local] = true
+		if inherited[ns.Local] != ns.Space {
+			diff.ns = append(diff.ns, ns)
 		}
 	}
-	return childScope
+	for i, j := 0, len(diff.ns)-1; i < j; i, j = i+1, j-1 {
+		diff.ns[i], diff.ns[j] = diff.ns[j], diff.ns[i]
+	}
+	if !seen[""] && inherited[""] != "" && (el.Name.Space == "" || len(seen) > 0) {
+		diff.ns = append(diff.ns, xml.Name{})
+	}
+	return diff
+}
+
+// inherit adds the declarations in scope to those made by the tags
+// around it.
+func inherit(inherited map[string]string, scope Scope) map[string]string {
+	if len(scope.ns) == 0 {
+		return inherited
+	}
+	result := make(map[string]string, len(inherited)+len(scope.ns))
+	for prefix, ns := range inherited {
+		result[prefix] = ns
+	}
+	for _, ns := range scope.ns {
+		result[ns.Local] = ns.Space
+	}
+	return result
 }
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
-- 
2.43.0


From 0d329a62229d1659c8d3daf89cbb4bd750e22da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 008/123] fix: an element of another namespace moved under a
 default namespace could fall into it

---
 xmltree/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 47867e8..09082d8 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -163,7 +163,7 @@ func diffScope(inherited map[string]string, el *Element) Scope {
 	for i, j := 0, len(diff.ns)-1; i < j; i, j = i+1, j-1 {
 		diff.ns[i], diff.ns[j] = diff.ns[j], diff.ns[i]
 	}
-	if !seen[""] && inherited[""] != "" && (el.Name.Space == "" || len(seen) > 0) {
+	if !seen[""] && inherited[""] != "" && (len(seen) > 0 || el.Name.Space != inherited[""]) {
 		diff.ns = append(diff.ns, xml.Name{})
 	}
 	return diff
-- 
2.43.0


From fcfde42120cff6b787fa1be60c4687a780430a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 009/123] fix: Equal ignored attributes missing from its second
 argument

---
 xmltree/compare.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..387be3b 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -48,6 +48,11 @@ func equalElement(a, b *Element) bool {
 	if a.Name != b.Name {
 		return false
 	}
+	return equalAttr(a, b) && equalAttr(b, a)
+}
+
+// equalAttr returns true if all attributes of b are in a.
+func equalAttr(a, b *Element) bool {
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
 		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
-- 
2.43.0


From eaa84bb1cc848fe61de1854e2c56b538bf9395c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 010/123] fix: Equal reordered the children of its arguments

---
 xmltree/compare.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 387be3b..0a6a557 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -34,10 +34,13 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
-	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
+	// The operands may be in use elsewhere; sort copies.
+	ac := append([]Element(nil), a.Children...)
+	bc := append([]Element(nil), b.Children...)
+	sort.Sort(byName(ac))
+	sort.Sort(byName(bc))
+	for i := range ac {
+		if !equal(&ac[i], &bc[i], depth+1) {
 			return false
 		}
 	}
-- 
2.43.0


From effbb3810a29b83efa8e3cec0f86d31371e883d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 011/123] fix: Equal depended on the order of sub-elements with
 the same name

---
 xmltree/compare.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 0a6a557..bf461b9 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -16,7 +16,10 @@ type byName []Element
 
 func (l byName) Len() int { return len(l) }
 func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
+	if l[i].Name.Space != l[j].Name.Space {
+		return l[i].Name.Space < l[j].Name.Space
+	}
+	return l[i].Name.Local < l[j].Name.Local
 }
 func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
 
@@ -40,9 +43,17 @@ func equal(a, b *Element, depth int) bool {
 	sort.Sort(byName(ac))
 	sort.Sort(byName(bc))
 	for i := range ac {
-		if !equal(&ac[i], &bc[i], depth+1) {
+		// Elements of the same name can be in any order
+		j := i
+		for ; j < len(bc) && bc[j].Name == ac[i].Name; j++ {
+			if equal(&ac[i], &bc[j], depth+1) {
+				break
+			}
+		}
+		if j == len(bc) || bc[j].Name != ac[i].Name {
 			return false
 		}
+		bc[i], bc[j] = bc[j], bc[i]
 	}
 	return true
 }
-- 
2.43.0


From b5458db33604264d1e526f424eeff6c86d9cee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 012/123] fix: Equal was false for equal documents nested more
 than 1000 levels deep

---
 xmltree/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index bf461b9..f011878 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -24,7 +24,7 @@ func (l byName) Less(i, j int) bool {
 func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
 
 func equal(a, b *Element, depth int) bool {
-	const maxDepth = 1000
+	const maxDepth = recursionLimit
 	if depth > maxDepth {
 		return false
 	}
-- 
2.43.0


From abd3164062deccfa54026b01e50f3a065df7318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 013/123] fix: Parse overwrote its argument when the document
 was not in UTF-8

---
 xmltree/xmltree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 5cfdb59..181b2b7 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -230,7 +230,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -240,12 +240,13 @@ func Parse(doc []byte) (*Element, error) {
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
 		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
+		utf8buf := bytes.NewBuffer(padding)
 
 		_, err = io.Copy(utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
+		data = utf8buf.Bytes()
 		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
 	}
 	scanner := scanner{Decoder: d}
@@ -260,7 +261,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 49c27d561cd08210f184adb0d3a85ef0e317575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 014/123] fix: Parse skipped the character after the XML
 declaration when the document was not in UTF-8

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 181b2b7..664c984 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -247,7 +247,7 @@ func Parse(doc []byte) (*Element, error) {
 			return nil, err
 		}
 		data = utf8buf.Bytes()
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		return bytes.NewReader(utf8buf.Bytes()[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
-- 
2.43.0


From e4e8e6b7b127a66adfbe267e29073d53d91b2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 015/123] fix: Encode did not report an error from writing the
 content of an element

---
 xmltree/marshal.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 09082d8..e041447 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -115,8 +115,8 @@ func (e *encoder) encode(el *Element, inherited map[string]string, visited map[*
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := io.WriteString(e.w, "<!-- cycle detected -->")
+		return err
 	}
 	scope := diffScope(inherited, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -124,7 +124,9 @@ func (e *encoder) encode(el *Element, inherited map[string]string, visited map[*
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
-- 
2.43.0


From e7c80a501e86cc593b5bd2288369aa20b8e8a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 016/123] fix: Parse panicked when an encoding was declared
 within the document element

---
 xmltree/xmltree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 664c984..ac51a3d 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -33,6 +33,7 @@ func (x byXMLName) Less(i, j int) bool {
 func (x byXMLName) Swap(i, j int) { x[i], x[j] = x[j], x[i] }
 
 var errDeepXML = errors.New("xmltree: xml document too deeply nested")
+var errLateEncoding = errors.New("xmltree: encoding declared within the document element")
 
 // An Element represents a single element in an XML document. Elements
 // may have zero or more children. The byte array used by the Content
@@ -231,7 +232,11 @@ func Parse(doc []byte) (*Element, error) {
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
 	data := doc
+	inRoot := false
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
+		if inRoot {
+			return nil, errLateEncoding
+		}
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
 			return nil, err
@@ -261,6 +266,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
+	inRoot = true
 	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bb6970e826a4cf44f303dda7e638f8cd2fc0e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 017/123] fix: names declared in a schema without a
 targetNamespace were put into the default namespace

---
 xsd/index.go |  4 ++--
 xsd/parse.go | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..eefd644 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -38,8 +38,8 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if name := el.Attr("", "name"); name != "" {
-				xmlname := el.ResolveDefault(name, tns)
+			if el.Attr("", "name") != "" {
+				xmlname := declName(el, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
 		}
diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..3a87eae 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -183,6 +183,17 @@ func parseType(name xml.Name) Type {
 	return builtin
 }
 
+// declName returns the canonical name of a declaration in a schema
+// with the given target namespace. A schema without a targetNamespace
+// declares names in no namespace, whatever the default namespace is.
+func declName(el *xmltree.Element, tns string) xml.Name {
+	name := el.Attr("", "name")
+	if strings.Contains(name, ":") {
+		return el.Resolve(name)
+	}
+	return xml.Name{Space: tns, Local: name}
+}
+
 func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
@@ -208,7 +219,7 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 	namedTypes := and(isType, hasAttr("", "name"))
 	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		used[declName(el, tns)] = struct{}{}
 	}
 
 	eltWithAnonType := and(
@@ -218,7 +229,7 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
-		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
+		xmlname := declName(el, tns)
 		if _, ok := used[xmlname]; ok {
 			continue
 		}
@@ -505,7 +516,7 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 		if (el.Name != xml.Name{schemaNS, "element"}) {
 			continue
 		}
-		name := el.ResolveDefault(el.Attr("", "name"), s.TargetNS)
+		name := declName(&el, s.TargetNS)
 		ref := el.Resolve(el.Attr("", "type"))
 		if ref.Local == "" || name.Local == "" {
 			continue
@@ -646,7 +657,7 @@ func (s *Schema) parseSelfType(root *xmltree.Element) *ComplexType {
 func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	var t ComplexType
 	var doc annotation
-	t.Name = root.ResolveDefault(root.Attr("", "name"), s.TargetNS)
+	t.Name = declName(root, s.TargetNS)
 	t.Abstract = parseBool(root.Attr("", "abstract"))
 	t.Mixed = parseBool(root.Attr("", "mixed"))
 
@@ -817,7 +828,7 @@ func parseAnyElement(ns string, el *xmltree.Element) Element {
 func parseElement(ns string, el *xmltree.Element) Element {
 	var doc annotation
 	e := Element{
-		Name:     el.ResolveDefault(el.Attr("", "name"), ns),
+		Name:     declName(el, ns),
 		Type:     parseType(el.Resolve(el.Attr("", "type"))),
 		Default:  el.Attr("", "default"),
 		Abstract: parseBool(el.Attr("", "abstract")),
@@ -878,7 +889,7 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 	var t SimpleType
 	var doc annotation
 
-	t.Name = root.ResolveDefault(root.Attr("", "name"), s.TargetNS)
+	t.Name = declName(root, s.TargetNS)
 	t.Anonymous = (root.Attr("", "_isAnonymous") == "true")
 	walk(root, func(el *xmltree.Element) {
 		switch el.Name.Local {
-- 
2.43.0


From 582748f37d678015dcdbe202e4df648e0d12b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 018/123] fix: references to elements and attributes were given
 the default type instead of the type of what they refer to

---
 xsd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 3a87eae..66c3bbd 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -593,9 +593,10 @@ func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
 		hasNoType = hasAttrValue("", "type", "")
+		hasNoRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
-	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isAttr, hasNoType, hasNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
@@ -609,9 +610,10 @@ func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
 		hasNoType = hasAttrValue("", "type", "")
+		hasNoRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
-	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isElement, hasNoType, hasNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
-- 
2.43.0


From 9e9ff6abe2c40983c9e64d2c79d426823173bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 019/123] fix: local attributes were given the target namespace
 as if they were qualified, and references to attributes of another namespace
 that of the referring schema

---
 xsd/parse.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 66c3bbd..0489df8 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -398,6 +398,9 @@ func flattenRef(schema []*xmltree.Element) error {
 			panic("bug building dep tree; missing " + el.Attr("", "ref"))
 		}
 		*el = *deref(el, real)
+		if (el.Name == xml.Name{schemaNS, "attribute"}) {
+			setDeclNamespace(el, ref.Space)
+		}
 	})
 	for ns, doc := range schema {
 		unpackGroups(doc)
@@ -448,6 +451,25 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// Top-level attributes are in the target namespace of the schema that
+// declares them, unlike the local attributes that they look like once
+// a reference to them has been flattened. Their namespace is kept in
+// the _targetNamespace attribute.
+func setDeclNamespace(el *xmltree.Element, ns string) {
+	if _, ok := lookupDeclNamespace(el); !ok {
+		el.SetAttr("", "_targetNamespace", ns)
+	}
+}
+
+func lookupDeclNamespace(el *xmltree.Element) (string, bool) {
+	for _, attr := range el.StartElement.Attr {
+		if (attr.Name == xml.Name{"", "_targetNamespace"}) {
+			return attr.Value, true
+		}
+	}
+	return "", false
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
@@ -868,8 +890,12 @@ func parseAttribute(ns string, el *xmltree.Element) Attribute {
 		a.Name = el.Resolve(el.Attr("", "name"))
 	} else {
 		a.Name.Local = name
+		if space, ok := lookupDeclNamespace(el); ok {
+			a.Name.Space = space
+		} else if el.Attr("", "form") == "qualified" {
+			a.Name.Space = ns
+		}
 	}
-	a.Name.Space = ns
 	a.Type = parseType(el.Resolve(el.Attr("", "type")))
 	a.Default = el.Attr("", "default")
 	a.Scope = el.Scope
-- 
2.43.0


From 40e52ecc10e9d1942d210b0bcbc5074a8064499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 020/123] fix: references within a group or attribute group
 were lost or looped, and local declarations could be taken for the global one
 referred to

---
 xsd/index.go |  7 ++++++-
 xsd/parse.go | 42 +++++++++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index eefd644..e3a7a75 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -35,10 +35,15 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
+		// Only top-level declarations can be referred to by name.
+		global := make(map[*xmltree.Element]struct{}, len(root.Children))
+		for i := range root.Children {
+			global[&root.Children[i]] = struct{}{}
+		}
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if el.Attr("", "name") != "" {
+			if _, ok := global[el]; ok && el.Attr("", "name") != "" {
 				xmlname := declName(el, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
diff --git a/xsd/parse.go b/xsd/parse.go
index 0489df8..e709a04 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -374,22 +374,33 @@ func flattenRef(schema []*xmltree.Element) error {
 	var (
 		depends = new(dependency.Graph)
 		index   = indexSchema(schema)
+		idOf    = make(map[*xmltree.Element]int, len(index.eltByID))
 	)
 	for id, el := range index.eltByID {
-		if el.Attr("", "ref") == "" {
-			continue
+		idOf[el] = id
+	}
+	for id, el := range index.eltByID {
+		if isRef(el) {
+			name := el.Resolve(el.Attr("", "ref"))
+			if dep, ok := index.ElementID(name, el.Name); !ok {
+				return fmt.Errorf("could not find ref %s in %s",
+					el.Attr("", "ref"), el)
+			} else {
+				depends.Add(id, dep)
+			}
 		}
-		name := el.Resolve(el.Attr("", "ref"))
-		if dep, ok := index.ElementID(name, el.Name); !ok {
-			return fmt.Errorf("could not find ref %s in %s",
-				el.Attr("", "ref"), el)
-		} else {
-			depends.Add(id, dep)
+	}
+	// References within a declaration must be flattened before
+	// the declaration is merged into elements that refer to it.
+	for _, id := range index.idByName {
+		for _, el := range index.eltByID[id].SearchFunc(isRef) {
+			depends.Add(id, idOf[el])
 		}
 	}
+	var err error
 	depends.Flatten(func(id int) {
 		el := index.eltByID[id]
-		if el.Attr("", "ref") == "" {
+		if !isRef(el) || err != nil {
 			return
 		}
 		ref := el.Resolve(el.Attr("", "ref"))
@@ -397,11 +408,19 @@ func flattenRef(schema []*xmltree.Element) error {
 		if !ok {
 			panic("bug building dep tree; missing " + el.Attr("", "ref"))
 		}
+		if isRef(real) || len(real.SearchFunc(isRef)) > 0 {
+			err = fmt.Errorf("circular reference to %s %s in namespace %s",
+				el.Name.Local, ref.Local, ref.Space)
+			return
+		}
 		*el = *deref(el, real)
 		if (el.Name == xml.Name{schemaNS, "attribute"}) {
 			setDeclNamespace(el, ref.Space)
 		}
 	})
+	if err != nil {
+		return err
+	}
 	for ns, doc := range schema {
 		unpackGroups(doc)
 		if hasCycle(doc, nil) {
@@ -412,6 +431,11 @@ func flattenRef(schema []*xmltree.Element) error {
 	return nil
 }
 
+// References are made to elements, attributes and groups of those.
+func isRef(el *xmltree.Element) bool {
+	return el.Name.Space == schemaNS && el.Attr("", "ref") != ""
+}
+
 // Flatten a reference to an XML element, returning the full XML
 // object.
 func deref(ref, real *xmltree.Element) *xmltree.Element {
-- 
2.43.0


From eaf85cb9fda6f66ddc2be45bc84af46037b525bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 021/123] fix: all but one of several schemas for the same
 namespace were lost

---
 xsd/parse.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e709a04..652fb8e 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -135,7 +135,6 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 func Parse(docs ...[]byte) ([]Schema, error) {
 	var (
 		result = make([]Schema, 0, len(docs))
-		parsed = make(map[string]Schema, len(docs))
 		types  = make(map[xml.Name]Type)
 	)
 
@@ -150,17 +149,17 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
-		parsed[tns] = s
+		result = append(result, s)
 	}
 
-	for _, s := range parsed {
+	for _, s := range result {
 		for _, t := range s.Types {
 			types[XMLName(t)] = t
 		}
 	}
 
-	for _, root := range schema {
-		s := parsed[root.Attr("", "targetNamespace")]
+	for i, root := range schema {
+		s := result[i]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
@@ -169,7 +168,6 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 			return nil, err
 		}
 		s.propagateMixedAttr()
-		result = append(result, s)
 	}
 	result = append(result, builtinSchema)
 	return result, nil
@@ -567,6 +565,10 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 		if ref.Local == "" || name.Local == "" {
 			continue
 		}
+		if _, ok := types[name]; ok {
+			// may be in another schema for the same namespace
+			continue
+		}
 		if _, ok := s.Types[name]; !ok {
 			if t, ok := s.lookupType(linkedType(ref), types); !ok {
 				return fmt.Errorf("could not lookup type %s for element %s",
-- 
2.43.0


From 1d198b5ec2faba2f3f809e5e09af549cdec7214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 022/123] fix: occurrence bounds of groups, sequences and
 choices, and repeated declarations of an element, did not make its elements
 plural or optional

---
 xsd/parse.go | 172 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 132 insertions(+), 40 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 652fb8e..9accdf3 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -493,22 +493,41 @@ func lookupDeclNamespace(el *xmltree.Element) (string, bool) {
 }
 
 // After dereferencing groups and attributeGroups, we need to
-// unpack them within their parent elements.
+// unpack them within their parent elements. A group that may
+// be repeated or left out is replaced with a sequence that may.
 func unpackGroups(doc *xmltree.Element) {
+	for i := range doc.Children {
+		unpackGroupsIn(&doc.Children[i])
+	}
+}
+
+func unpackGroupsIn(el *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
-	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
-		children := make([]xmltree.Element, 0, len(el.Children))
-		for _, c := range el.Children {
-			if isGroup(&c) {
-				children = append(children, c.Children...)
-			} else {
-				children = append(children, c)
+	for i := range el.Children {
+		unpackGroupsIn(&el.Children[i])
+	}
+	if !hasChild(isGroup)(el) {
+		return
+	}
+	children := make([]xmltree.Element, 0, len(el.Children))
+	for _, c := range el.Children {
+		if !isGroup(&c) {
+			children = append(children, c)
+		} else if c.Attr("", "minOccurs") == "" && c.Attr("", "maxOccurs") == "" {
+			children = append(children, c.Children...)
+		} else {
+			seq := xmltree.Element{Scope: c.Scope, Children: c.Children}
+			seq.Name = xml.Name{schemaNS, "sequence"}
+			for _, name := range []string{"minOccurs", "maxOccurs"} {
+				if v := c.Attr("", name); v != "" {
+					seq.SetAttr("", name, v)
+				}
 			}
+			children = append(children, seq)
 		}
-		el.Children = children
 	}
+	el.Children = children
 }
 
 // a complex type defined without any simpleContent or
@@ -768,19 +787,15 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 		case "restriction":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 
-			for _, v := range el.Search(schemaNS, "any") {
-				t.Elements = append(t.Elements, parseAnyElement(ns, v))
-				break
+			particles := parseParticles(ns, el)
+			for _, p := range particles {
+				if p.Wildcard {
+					t.Elements = append(t.Elements, p.Element)
+				}
 			}
-
-			usedElt := make(map[xml.Name]int)
-			for _, v := range el.Search(schemaNS, "element") {
-				elt := parseElement(ns, v)
-				if existing, ok := usedElt[elt.Name]; !ok {
-					usedElt[elt.Name] = len(t.Elements)
-					t.Elements = append(t.Elements, elt)
-				} else {
-					t.Elements[existing] = joinElem(t.Elements[existing], elt)
+			for _, p := range particles {
+				if !p.Wildcard {
+					t.Elements = append(t.Elements, p.Element)
 				}
 			}
 
@@ -796,14 +811,107 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 	t.Doc += string(doc)
 }
 
+// A particle is an element within a content model, with the number
+// of times it may occur. If max is negative, there is no limit.
+type particle struct {
+	Element
+	min, max int
+	// true if the element is optional, whatever min is.
+	optional bool
+}
+
+// parseParticles finds the elements within a content model, in the order
+// they first appear. Elements with the same name are merged, and so are
+// wildcards. A model group that may be repeated or left out may do so
+// with every element in it.
+func parseParticles(ns string, root *xmltree.Element) []particle {
+	var result []particle
+	choice := root.Name.Local == "choice"
+
+	walk(root, func(el *xmltree.Element) {
+		var found []particle
+		switch el.Name.Local {
+		case "element":
+			elt := parseElement(ns, el)
+			found = []particle{{elt, 1, 1, elt.Default != ""}}
+		case "any":
+			found = []particle{{parseAnyElement(ns, el), 1, 1, false}}
+		case "sequence", "choice", "all":
+			found = parseParticles(ns, el)
+		default:
+			return
+		}
+		min, max := parseOccurs(el)
+	Found:
+		for _, p := range found {
+			p.min *= min
+			if p.max < 0 && max != 0 || max < 0 && p.max != 0 {
+				p.max = -1
+			} else {
+				p.max *= max
+			}
+			p.optional = p.optional || choice
+			for i, q := range result {
+				if p.Name == q.Name && p.Wildcard == q.Wildcard {
+					result[i] = joinParticle(q, p, choice)
+					continue Found
+				}
+			}
+			result = append(result, p)
+		}
+	})
+	for i, p := range result {
+		result[i].Plural = p.max < 0 || p.max > 1
+		result[i].Optional = p.optional || p.min == 0
+	}
+	return result
+}
+
+func joinParticle(a, b particle, choice bool) particle {
+	a.Element = joinElem(a.Element, b.Element)
+	a.optional = a.optional || b.optional
+	if !choice {
+		a.min += b.min
+		if a.max < 0 || b.max < 0 {
+			a.max = -1
+		} else {
+			a.max += b.max
+		}
+		return a
+	}
+	if b.min < a.min {
+		a.min = b.min
+	}
+	if a.max >= 0 && (b.max < 0 || b.max > a.max) {
+		a.max = b.max
+	}
+	return a
+}
+
+func parseOccurs(el *xmltree.Element) (min, max int) {
+	min, max = 1, 1
+	if s := strings.TrimSpace(el.Attr("", "minOccurs")); s != "" {
+		if min = parseInt(s); min < 0 {
+			stop("Invalid minOccurs value " + s)
+		}
+	}
+	if s := strings.TrimSpace(el.Attr("", "maxOccurs")); s != "" {
+		if max = parseInt(s); max < 0 && s != "unbounded" {
+			stop("Invalid maxOccurs value " + s)
+		}
+	}
+	if max >= 0 && max < min {
+		max = min
+	}
+	return min, max
+}
+
 func joinElem(a, b Element) Element {
 	if a.Doc != "" {
 		a.Doc += "\n"
 	}
 	a.Doc += b.Doc
 	a.Abstract = a.Abstract && b.Abstract
-	a.Plural = a.Plural || b.Plural
-	a.Optional = a.Optional || b.Optional
 	a.Nillable = a.Nillable || b.Nillable
 
 	if a.Default != b.Default {
@@ -853,15 +961,6 @@ func parseBool(s string) bool {
 	return false
 }
 
-func parsePlural(el *xmltree.Element) bool {
-	if min := parseInt(el.Attr("", "minOccurs")); min > 1 {
-		return true
-	} else if max := parseInt(el.Attr("", "maxOccurs")); max < 0 || max > 1 {
-		return true
-	}
-	return false
-}
-
 func parseAnyElement(ns string, el *xmltree.Element) Element {
 	var base Type = AnyType
 	typeattr := el.Attr("", "type")
@@ -869,7 +968,6 @@ func parseAnyElement(ns string, el *xmltree.Element) Element {
 		base = parseType(el.Resolve(typeattr))
 	}
 	return Element{
-		Plural:   parsePlural(el),
 		Type:     base,
 		Wildcard: true,
 	}
@@ -883,17 +981,11 @@ func parseElement(ns string, el *xmltree.Element) Element {
 		Default:  el.Attr("", "default"),
 		Abstract: parseBool(el.Attr("", "abstract")),
 		Nillable: parseBool(el.Attr("", "nillable")),
-		Plural:   parsePlural(el),
 		Scope:    el.Scope,
 	}
 	if el.Attr("", "type") == "" {
 		e.Type = AnyType
 	}
-	if x := el.Attr("", "minOccurs"); x != "" && parseInt(x) == 0 {
-		e.Optional = true
-	} else if e.Default != "" {
-		e.Optional = true
-	}
 	walk(el, func(el *xmltree.Element) {
 		if el.Name.Local == "annotation" {
 			doc = doc.append(parseAnnotation(el))
-- 
2.43.0


From fe8ce4a0959e2ee668bba67c3b7d12d85a3c20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 023/123] fix: elements referred to, and members of groups,
 were given the namespace of the referring schema

---
 evidence/C09.json              |  45 ++++++++++++
 replay/C09-model-a3415321.json | 121 +++++++++++++++++++++++++++++++++
 xsd/index.go                   |   3 +
 xsd/parse.go                   |  33 +++++++--
 4 files changed, 196 insertions(+), 6 deletions(-)
 create mode 100644 evidence/C09.json
 create mode 100644 replay/C09-model-a3415321.json

diff --git a/evidence/C09.json b/evidence/C09.json
new file mode 100644
index 0000000..23d7ef6
--- /dev/null
+++ b/evidence/C09.json
@@ -0,0 +1,45 @@
+{
+ "assumptions": [
+  "the Go toolchain and standard library are correct",
+  "generated inputs only: absence of failures is evidence, not proof"
+ ],
+ "coverage": {
+  "distinct_nontrivial": 4,
+  "evaluations": 14,
+  "facets": [
+   {
+    "facet": "model",
+    "rule": "the schemas declare more than two elements, attributes or derivations",
+    "evaluations": 14,
+    "distinct_nontrivial": 4,
+    "classes": {
+     "1 namespaces": 4,
+     "2 namespaces": 1,
+     "3 namespaces": 1,
+     "derived complex type": 1,
+     "element below a choice": 1,
+     "element of another namespace": 3,
+     "no target namespace": 1,
+     "plural element": 4,
+     "qualified attribute": 1,
+     "simple content": 3,
+     "simple type: list": 1,
+     "simple type: restriction": 4,
+     "simple type: union": 1,
+     "wildcard": 3
+    }
+   }
+  ],
+  "inner_executions": 0,
+  "known_findings_reproduced": 0,
+  "rule": "model: the schemas declare more than two elements, attributes or derivations",
+  "samples": [],
+  "stored_cases_replayed": 0
+ },
+ "level": "exploration",
+ "property": "C09",
+ "seed": 1,
+ "tier": "quick",
+ "violations": 1,
+ "wall_s": 8.590400171
+}
diff --git a/replay/C09-model-a3415321.json b/replay/C09-model-a3415321.json
new file mode 100644
index 0000000..df68af9
--- /dev/null
+++ b/replay/C09-model-a3415321.json
@@ -0,0 +1,121 @@
+{
+ "property": "C09",
+ "facet": "model",
+ "error": "type {http://example.com/b a}: want:  elem {urn:a}b plural=true optional=false nillable=true abstract=false default=\"\" doc=\"\" foreign= type=xs:anyType\n got:  elem {http://example.com/b}b plural=true optional=false nillable=true abstract=false default=\"\" doc=\"\" foreign= type=xs:anyType\n--- document 0\n\u003cschema targetNamespace=\"urn:a\" elementFormDefault=\"qualified\" xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:ns1=\"urn:a\" xmlns:ns2=\"http://example.com/b\" xmlns:_x=\"urn:ext\"\u003e\u003cimport namespace=\"http://example.com/b\"/\u003e\u003ccomplexType name=\"a\"/\u003e\u003celement name=\"b\" nillable=\"1\"\u003e\u003c/element\u003e\u003c/schema\u003e\n--- document 1\n\u003c?xml version=\"1.0\" encoding=\"UTF-8\"?\u003e\n\u003cschema targetNamespace=\"http://example.com/b\" elementFormDefault=\"qualified\" xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:ns1=\"urn:a\" xmlns:ns2=\"http://example.com/b\" xmlns:_x=\"urn:ext\"\u003e\u003cimport namespace=\"urn:a\" schemaLocation=\"s0.xsd\"/\u003e\u003ccomplexType name=\"a\"\u003e\u003csequence\u003e\u003celement ref=\"ns1:b\" maxOccurs=\"unbounded\"\u003e\u003c/element\u003e\u003c/sequence\u003e\u003c/complexType\u003e\u003celement name=\"b\"/\u003e\u003ccomplexType name=\"b\"/\u003e\u003ccomplexType name=\"c\"/\u003e\u003c/schema\u003e\n",
+ "case": {
+  "Set": {
+   "Schemas": [
+    {
+     "NS": "urn:a",
+     "Types": [
+      {
+       "Name": "a",
+       "Complex": {
+        "Base": {
+         "Name": {
+          "Space": "",
+          "Local": ""
+         }
+        }
+       }
+      }
+     ],
+     "Elems": [
+      {
+       "Name": "b",
+       "Type": {
+        "Name": {
+         "Space": "",
+         "Local": ""
+        }
+       },
+       "Nillable": true
+      }
+     ]
+    },
+    {
+     "NS": "http://example.com/b",
+     "Types": [
+      {
+       "Name": "b",
+       "Complex": {
+        "Base": {
+         "Name": {
+          "Space": "",
+          "Local": ""
+         }
+        }
+       }
+      },
+      {
+       "Name": "a",
+       "Complex": {
+        "Base": {
+         "Name": {
+          "Space": "",
+          "Local": ""
+         }
+        },
+        "Content": {
+         "Kind": "sequence",
+         "Min": 1,
+         "Max": 1,
+         "Ref": {
+          "Space": "",
+          "Local": ""
+         },
+         "Parts": [
+          {
+           "Kind": "ref",
+           "Min": 1,
+           "Max": -1,
+           "Ref": {
+            "Space": "urn:a",
+            "Local": "b"
+           }
+          }
+         ]
+        }
+       }
+      },
+      {
+       "Name": "c",
+       "Complex": {
+        "Base": {
+         "Name": {
+          "Space": "",
+          "Local": ""
+         }
+        }
+       }
+      }
+     ],
+     "Elems": [
+      {
+       "Name": "b",
+       "Type": {
+        "Name": {
+         "Space": "",
+         "Local": ""
+        }
+       }
+      }
+     ]
+    }
+   ]
+  },
+  "Style": {
+   "Seed": 1,
+   "Default": "xsd",
+   "Prefixes": 3,
+   "Local": false,
+   "Noise": false,
+   "Shuffle": true,
+   "Explicit": false,
+   "Split": false,
+   "Wrap": false,
+   "Reorder": false,
+   "Pretty": false
+  }
+ }
+}
diff --git a/xsd/index.go b/xsd/index.go
index e3a7a75..5bedde5 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,6 +12,8 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
+	// target namespace of the schema each element is in
+	targetNS []string
 	// name indices can collide since different element
 	// types can have the same node.
 	idByName map[elementKey]int
@@ -43,6 +45,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			index.targetNS = append(index.targetNS, tns)
 			if _, ok := global[el]; ok && el.Attr("", "name") != "" {
 				xmlname := declName(el, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
diff --git a/xsd/parse.go b/xsd/parse.go
index 9accdf3..73d07b6 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -412,8 +412,13 @@ func flattenRef(schema []*xmltree.Element) error {
 			return
 		}
 		*el = *deref(el, real)
-		if (el.Name == xml.Name{schemaNS, "attribute"}) {
+		switch el.Name.Local {
+		case "element", "attribute":
 			setDeclNamespace(el, ref.Space)
+		default:
+			if ref.Space != index.targetNS[id] {
+				setGroupNamespace(el, ref.Space)
+			}
 		}
 	})
 	if err != nil {
@@ -473,16 +478,28 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
-// Top-level attributes are in the target namespace of the schema that
-// declares them, unlike the local attributes that they look like once
-// a reference to them has been flattened. Their namespace is kept in
-// the _targetNamespace attribute.
+// Top-level elements and attributes are in the target namespace of the
+// schema that declares them, which may not be the schema that refers to
+// them. Their namespace is kept in the _targetNamespace attribute.
 func setDeclNamespace(el *xmltree.Element, ns string) {
 	if _, ok := lookupDeclNamespace(el); !ok {
+		el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
 		el.SetAttr("", "_targetNamespace", ns)
 	}
 }
 
+// The members of a group are in the target namespace of the schema that
+// declares the group.
+func setGroupNamespace(group *xmltree.Element, ns string) {
+	isMember := or(
+		isElem(schemaNS, "element"),
+		and(isElem(schemaNS, "attribute"), hasAttrValue("", "form", "qualified")))
+
+	for _, el := range group.SearchFunc(isMember) {
+		setDeclNamespace(el, ns)
+	}
+}
+
 func lookupDeclNamespace(el *xmltree.Element) (string, bool) {
 	for _, attr := range el.StartElement.Attr {
 		if (attr.Name == xml.Name{"", "_targetNamespace"}) {
@@ -975,6 +992,10 @@ func parseAnyElement(ns string, el *xmltree.Element) Element {
 
 func parseElement(ns string, el *xmltree.Element) Element {
 	var doc annotation
+	declNS, isDeclared := lookupDeclNamespace(el)
+	if isDeclared {
+		ns = declNS
+	}
 	e := Element{
 		Name:     declName(el, ns),
 		Type:     parseType(el.Resolve(el.Attr("", "type"))),
@@ -992,7 +1013,7 @@ func parseElement(ns string, el *xmltree.Element) Element {
 		}
 	})
 	t, ok := e.Type.(linkedType)
-	if ok {
+	if ok && !isDeclared {
 		e.Name.Space = t.Space
 	}
 	e.Doc = string(doc)
-- 
2.43.0


From 7e0f2e179bd4152862898daa651904a913cc6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 024/123] fix: anonymous types could not be found when the
 target namespace has no prefix

---
 xsd/parse.go | 69 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 73d07b6..1e89f58 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1,6 +1,7 @@
 package xsd
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"regexp"
@@ -192,6 +193,50 @@ func declName(el *xmltree.Element, tns string) xml.Name {
 	return xml.Name{Space: tns, Local: name}
 }
 
+// qname returns a QName that resolves to name in the scope of el. If
+// nothing in that scope does, a prefix is declared for the namespace.
+func qname(el *xmltree.Element, name xml.Name) string {
+	if s := el.Prefix(name); el.Resolve(s) == name {
+		return s
+	}
+	if name.Space != "" {
+		prefix := "ns"
+		for i := 1; ; i++ {
+			if _, used := el.ResolveNS(prefix + ":" + name.Local); !used {
+				break
+			}
+			prefix = fmt.Sprintf("ns%d", i)
+		}
+		declareNS(el, "xmlns:"+prefix, name.Space)
+		return prefix + ":" + name.Local
+	}
+	// Only unprefixed names can be in no namespace, and there is a default
+	// namespace. It must go, and names that use it need a prefix.
+	outer := *el
+	declareNS(el, "xmlns", "")
+	for _, attr := range []string{"type", "base", "itemType", "memberTypes", "ref"} {
+		names := strings.Fields(el.Attr("", attr))
+		for i, s := range names {
+			names[i] = qname(el, outer.Resolve(s))
+		}
+		if len(names) > 0 {
+			el.SetAttr("", attr, strings.Join(names, " "))
+		}
+	}
+	return name.Local
+}
+
+// declareNS adds a namespace declaration to the scope of el.
+func declareNS(el *xmltree.Element, attr, ns string) {
+	var buf bytes.Buffer
+	buf.WriteString("<_ " + attr + `="`)
+	xml.EscapeText(&buf, []byte(ns))
+	buf.WriteString(`"/>`)
+	if decl, err := xmltree.Parse(buf.Bytes()); err == nil {
+		el.Scope = *el.JoinScope(&decl.Scope)
+	}
+}
+
 func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
@@ -237,7 +282,7 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 				continue
 			}
 			t.SetAttr("", "name", el.Attr("", "name"))
-			el.SetAttr("", "type", el.Prefix(xmlname))
+			el.SetAttr("", "type", qname(el, xmlname))
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
@@ -333,14 +378,14 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			*typeCounter++
 
 			name := anonTypeName(*typeCounter, targetNS)
-			qname := el.Prefix(name)
+			ref := qname(el, name)
 
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
 			if accum {
-				qname = el.Attr("", updateAttr) + " " + qname
+				ref = el.Attr("", updateAttr) + " " + ref
 			}
-			el.SetAttr("", updateAttr, qname)
+			el.SetAttr("", updateAttr, ref)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
 			root.Children = append(root.Children, t)
@@ -449,6 +494,12 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el.Content = append([]byte{}, real.Content...)
 	el.Children = append([]xmltree.Element{}, real.Children...)
 
+	// If there are child elements, rather than checking all children
+	// for xmlns conversion, we can just import the xmlns prefixes
+	if len(el.Children) > 0 {
+		el.Scope = *real.JoinScope(&ref.Scope)
+	}
+
 	// Some attributes can contain a qname, and must be converted to use the
 	// xmlns prefixes in ref's scope.
 	hasQName := map[xml.Name]bool{
@@ -456,16 +507,10 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	}
 	for i, attr := range el.StartElement.Attr {
 		if hasQName[attr.Name] {
-			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
-			el.StartElement.Attr[i] = attr
+			el.StartElement.Attr[i].Value = ""
+			el.StartElement.Attr[i].Value = qname(el, real.Resolve(attr.Value))
 		}
 	}
-	// If there are child elements, rather than checking all children
-	// for xmlns conversion, we can just import the xmlns prefixes
-	if len(el.Children) > 0 {
-		el.Scope = *real.JoinScope(&ref.Scope)
-	}
 
 	// Attributes added to the reference overwrite attributes in the
 	// referenced element.
-- 
2.43.0


From d3aad3b7aa9a8b56bfd6c2939683201b75a4bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 025/123] fix: documentation after an appinfo was lost

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From ae1c801f91c249153f8f9b277ab94da603253a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:22 +0000
Subject: [PATCH 026/123] fix: anonymous types were lost, duplicated or took
 the name of another type, depending on how many there are and in which schema

---
 xsd/parse.go | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 1e89f58..6496d12 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -108,11 +108,14 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
+	}
+	used := typeNames(result)
+	for _, root := range result {
+		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
 	for _, root := range result {
-		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
+		if err := nameAnonymousTypes(root, &typeCounter, used); err != nil {
 			return nil, err
 		}
 		if err := setChoicesOptional(root); err != nil {
@@ -241,6 +244,20 @@ func anonTypeName(n int, ns string) xml.Name {
 	return xml.Name{ns, fmt.Sprintf("_anon%d", n)}
 }
 
+// typeNames returns the names of all named types.
+func typeNames(schema []*xmltree.Element) map[xml.Name]struct{} {
+	used := make(map[xml.Name]struct{})
+	namedTypes := and(isType, hasAttr("", "name"))
+
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(namedTypes) {
+			used[declName(el, tns)] = struct{}{}
+		}
+	}
+	return used
+}
+
 /* Convert
 <element name="foo">
   <complexType>
@@ -256,15 +273,12 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
-	used := make(map[xml.Name]struct{})
+func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
+	// Types are added to root last, so that pointers to its children
+	// remain valid.
+	var types []xmltree.Element
 	tns := root.Attr("", "targetNamespace")
 
-	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[declName(el, tns)] = struct{}{}
-	}
-
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
 		hasAttr("", "name"),
@@ -286,10 +300,11 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			break
 		}
 	}
+	root.Children = append(root.Children, types...)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -342,10 +357,13 @@ to
     </xs:sequence>
   </xs:complexType>
 */
-func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
+func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used map[xml.Name]struct{}) error {
 	var (
 		updateAttr string
 		accum      bool
+		// Types are added to root last, so that pointers to its
+		// children remain valid.
+		types []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
 	for _, el := range root.SearchFunc(hasAnonymousType) {
@@ -376,8 +394,12 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 				continue
 			}
 			*typeCounter++
-
 			name := anonTypeName(*typeCounter, targetNS)
+			for _, ok := used[name]; ok; _, ok = used[name] {
+				*typeCounter++
+				name = anonTypeName(*typeCounter, targetNS)
+			}
+			used[name] = struct{}{}
 			ref := qname(el, name)
 
 			t.SetAttr("", "name", name.Local)
@@ -388,12 +410,14 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			el.SetAttr("", updateAttr, ref)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			if !accum {
 				break
 			}
+			i--
 		}
 	}
+	root.Children = append(root.Children, types...)
 	return nil
 }
 
-- 
2.43.0


From ceadf276b966fa604c3988011743c68496c67af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:44 +0000
Subject: [PATCH 027/123] fix: documentation of a type and of its content ran
 together, in the wrong order

---
 xsd/parse.go | 11 ++++-------
 xsd/xsd.go   |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6496d12..e530954 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -831,7 +831,7 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
-	t.Doc += string(doc)
+	t.Doc = string(doc.append(annotation(t.Doc)))
 	return &t
 }
 
@@ -855,7 +855,7 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 			}
 		}
 	})
-	t.Doc += string(doc)
+	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
 // The complexContent element signals that we intend to restrict or extend
@@ -894,7 +894,7 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
-	t.Doc += string(doc)
+	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
 // A particle is an element within a content model, with the number
@@ -993,10 +993,7 @@ func parseOccurs(el *xmltree.Element) (min, max int) {
 }
 
 func joinElem(a, b Element) Element {
-	if a.Doc != "" {
-		a.Doc += "\n"
-	}
-	a.Doc += b.Doc
+	a.Doc = string(annotation(a.Doc).append(annotation(b.Doc)))
 	a.Abstract = a.Abstract && b.Abstract
 	a.Nillable = a.Nillable || b.Nillable
 
diff --git a/xsd/xsd.go b/xsd/xsd.go
index fc09481..88a207a 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -242,7 +242,7 @@ type Restriction struct {
 type annotation string
 
 func (a annotation) append(extra annotation) annotation {
-	if a != "" {
+	if a != "" && extra != "" {
 		a += "\n\n"
 	}
 	return a + extra
-- 
2.43.0


From fe9090ec13659631e922b576a90bcf33a1daf8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 028/123] fix: Parse panicked on types derived from a type of a
 later schema that is itself derived from one of another namespace

---
 xsd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e530954..2afa7c1 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -162,11 +162,13 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for i, root := range schema {
-		s := result[i]
+	for _, s := range result {
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
+	}
+	for i, root := range schema {
+		s := result[i]
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9b5745505a1b2b809b1ec0398d1b74ac2aa9bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 029/123] fix: the generated name of an anonymous type could be
 that of an element

---
 xsd/parse.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 2afa7c1..30666b0 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -113,6 +113,9 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	for _, root := range result {
 		copyEltNamesToAnonTypes(root, used)
 	}
+	for name := range elementNames(result) {
+		used[name] = struct{}{}
+	}
 	typeCounter := 0
 	for _, root := range result {
 		if err := nameAnonymousTypes(root, &typeCounter, used); err != nil {
@@ -260,6 +263,22 @@ func typeNames(schema []*xmltree.Element) map[xml.Name]struct{} {
 	return used
 }
 
+// elementNames returns the names of all top-level elements. Parse
+// adds them to the names of types.
+func elementNames(schema []*xmltree.Element) map[xml.Name]struct{} {
+	names := make(map[xml.Name]struct{})
+
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.Children {
+			if (el.Name == xml.Name{schemaNS, "element"}) {
+				names[declName(&el, tns)] = struct{}{}
+			}
+		}
+	}
+	return names
+}
+
 /* Convert
 <element name="foo">
   <complexType>
-- 
2.43.0


From 32255dd554161cbd7e02e16cbfe56e2d992c0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 030/123] fix: boolean values surrounded by white space were
 rejected

---
 xsd/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 30666b0..23c56b8 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1055,6 +1055,7 @@ func parseDecimal(s string) float64 {
 }
 
 func parseBool(s string) bool {
+	s = strings.TrimSpace(s)
 	switch s {
 	case "", "0", "false":
 		return false
-- 
2.43.0


From 012fe78cf2219cc0c35b4e29cc972e48b55235ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 031/123] fix: the anonymous type of a local element or
 attribute could take the name of a global element of another type

---
 xsd/parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 23c56b8..1fc409c 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -109,11 +109,11 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		attributeDefaultType(root)
 		elementDefaultType(root)
 	}
-	used := typeNames(result)
+	used, elements := typeNames(result), elementNames(result)
 	for _, root := range result {
-		copyEltNamesToAnonTypes(root, used)
+		copyEltNamesToAnonTypes(root, used, elements)
 	}
-	for name := range elementNames(result) {
+	for name := range elements {
 		used[name] = struct{}{}
 	}
 	typeCounter := 0
@@ -294,7 +294,7 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
+func copyEltNamesToAnonTypes(root *xmltree.Element, used, elements map[xml.Name]struct{}) {
 	// Types are added to root last, so that pointers to its children
 	// remain valid.
 	var types []xmltree.Element
@@ -305,12 +305,20 @@ func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{})
 		hasAttr("", "name"),
 		hasAnonymousType)
 
+	global := make(map[*xmltree.Element]bool)
+	for i := range root.Children {
+		global[&root.Children[i]] = isElem(schemaNS, "element")(&root.Children[i])
+	}
+
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
 		xmlname := declName(el, tns)
 		if _, ok := used[xmlname]; ok {
 			continue
 		}
+		if _, ok := elements[xmlname]; ok && !global[el] {
+			continue
+		}
 		used[xmlname] = struct{}{}
 		for i, t := range el.Children {
 			if !isAnonymousType(&t) {
-- 
2.43.0


From 8f96de7bb7372888a4fcd1b65fa859deab0fb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:41 +0000
Subject: [PATCH 032/123] fix: attributes declared by a restriction of simple
 content were lost

---
 xsd/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 1fc409c..1978bf2 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -874,11 +874,11 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 		switch el.Name.Local {
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
-		case "restriction":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 		case "extension":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			t.Extends = true
+			fallthrough
+		case "restriction":
+			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			for _, v := range el.Search(schemaNS, "attribute") {
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 			}
-- 
2.43.0


From c278cb09e06ca7b6924ed76daaedabca50c1fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 033/123] fix: a reference to a group from another namespace
 changed the elements of the group elsewhere

---
 xsd/parse.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 1978bf2..df443a6 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -545,7 +545,7 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el.Name = real.Name
 	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
 	el.Content = append([]byte{}, real.Content...)
-	el.Children = append([]xmltree.Element{}, real.Children...)
+	el.Children = copyElements(real.Children)
 
 	// If there are child elements, rather than checking all children
 	// for xmlns conversion, we can just import the xmlns prefixes
@@ -576,12 +576,23 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// What is copied from a declaration can be changed without changing
+// the declaration.
+func copyElements(list []xmltree.Element) []xmltree.Element {
+	result := append([]xmltree.Element{}, list...)
+	for i := range result {
+		el := &result[i]
+		el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+		el.Children = copyElements(el.Children)
+	}
+	return result
+}
+
 // Top-level elements and attributes are in the target namespace of the
 // schema that declares them, which may not be the schema that refers to
 // them. Their namespace is kept in the _targetNamespace attribute.
 func setDeclNamespace(el *xmltree.Element, ns string) {
 	if _, ok := lookupDeclNamespace(el); !ok {
-		el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
 		el.SetAttr("", "_targetNamespace", ns)
 	}
 }
-- 
2.43.0


From 95e99ff20c88bb18b42da16c515fb6fbb84dd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:47 +0000
Subject: [PATCH 034/123] fix: types derived from themselves were accepted, so
 that walking their bases did not end

---
 xsd/parse.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index df443a6..446f918 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -170,6 +170,15 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 			return nil, err
 		}
 	}
+	seen := make(map[Type]bool)
+	for _, s := range result {
+		for name, t := range s.Types {
+			if isCircular(t, seen) {
+				return nil, fmt.Errorf("type %s in namespace %s is derived from itself",
+					name.Local, name.Space)
+			}
+		}
+	}
 	for i, root := range schema {
 		s := result[i]
 		err := s.addElementTypeAliases(root, types)
@@ -1382,6 +1391,33 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// isCircular is true if t is derived from itself, by restriction,
+// extension, as a list of itself or as a union with itself as a member.
+// The types that it has seen are kept in seen, with the value true while
+// the types they are derived from are being looked at.
+func isCircular(t Type, seen map[Type]bool) bool {
+	var derivedFrom []Type
+	switch t := t.(type) {
+	case *ComplexType:
+		derivedFrom = []Type{t.Base}
+	case *SimpleType:
+		derivedFrom = append([]Type{t.Base}, t.Union...)
+	default:
+		return false
+	}
+	if pending, ok := seen[t]; ok {
+		return pending
+	}
+	seen[t] = true
+	for _, base := range derivedFrom {
+		if isCircular(base, seen) {
+			return true
+		}
+	}
+	seen[t] = false
+	return false
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From dcbb4d561c391e9acd8f5861b630edc170930643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 035/123] fix: an attribute or element that is referred to lost
 the namespace of its foreign attributes

---
 xsd/parse.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 446f918..b72ab54 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -217,15 +217,7 @@ func qname(el *xmltree.Element, name xml.Name) string {
 		return s
 	}
 	if name.Space != "" {
-		prefix := "ns"
-		for i := 1; ; i++ {
-			if _, used := el.ResolveNS(prefix + ":" + name.Local); !used {
-				break
-			}
-			prefix = fmt.Sprintf("ns%d", i)
-		}
-		declareNS(el, "xmlns:"+prefix, name.Space)
-		return prefix + ":" + name.Local
+		return declarePrefix(el, name.Space) + ":" + name.Local
 	}
 	// Only unprefixed names can be in no namespace, and there is a default
 	// namespace. It must go, and names that use it need a prefix.
@@ -243,6 +235,19 @@ func qname(el *xmltree.Element, name xml.Name) string {
 	return name.Local
 }
 
+// declarePrefix declares a new prefix for a namespace.
+func declarePrefix(el *xmltree.Element, ns string) string {
+	prefix := "ns"
+	for i := 1; ; i++ {
+		if _, used := el.ResolveNS(prefix + ":_"); !used {
+			break
+		}
+		prefix = fmt.Sprintf("ns%d", i)
+	}
+	declareNS(el, "xmlns:"+prefix, ns)
+	return prefix
+}
+
 // declareNS adds a namespace declaration to the scope of el.
 func declareNS(el *xmltree.Element, attr, ns string) {
 	var buf bytes.Buffer
@@ -572,6 +577,11 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 			el.StartElement.Attr[i].Value = ""
 			el.StartElement.Attr[i].Value = qname(el, real.Resolve(attr.Value))
 		}
+		// Names of attributes may need a prefix that ref's scope does not have.
+		if s := real.Prefix(attr.Name); attr.Name.Space != "" &&
+			(!strings.Contains(s, ":") || el.Resolve(s) != attr.Name) {
+			declarePrefix(el, attr.Name.Space)
+		}
 	}
 
 	// Attributes added to the reference overwrite attributes in the
-- 
2.43.0


From 3c82d598ed430cbf637e7a31d12869b0c171b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 036/123] fix: an element whose type was moved out lost its own
 name when the default namespace had to go

---
 xsd/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index b72ab54..a227084 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -232,6 +232,9 @@ func qname(el *xmltree.Element, name xml.Name) string {
 			el.SetAttr("", attr, strings.Join(names, " "))
 		}
 	}
+	if el.Resolve(el.Prefix(el.Name)) != el.Name {
+		declarePrefix(el, el.Name.Space)
+	}
 	return name.Local
 }
 
-- 
2.43.0


From 9665e9ee614a9e0755415a7982017a9346ef476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 037/123] fix: schema elements within annotations were taken
 for declarations, and text of documentation with markup was lost

---
 xsd/parse.go | 13 +++++++++++++
 xsd/xsd.go   | 25 +++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index a227084..d71fc9b 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -52,6 +52,7 @@ func Imports(data []byte) ([]Ref, error) {
 	if err != nil {
 		return nil, err
 	}
+	hideAnnotations(root)
 
 	for _, v := range root.Search(schemaNS, "import") {
 		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
@@ -76,6 +77,17 @@ func Imports(data []byte) ([]Ref, error) {
 	return result, nil
 }
 
+// What is within the documentation or appinfo of an annotation is content
+// of the annotation only, and must not be found by searching for schema
+// elements.
+func hideAnnotations(root *xmltree.Element) {
+	for _, el := range root.Search(schemaNS, "annotation") {
+		for i := range el.Children {
+			el.Children[i].Children = nil
+		}
+	}
+}
+
 // Normalize reads XML schema documents and returns xml trees
 // for each schema with the following properties:
 //
@@ -99,6 +111,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		if err != nil {
 			return nil, err
 		}
+		hideAnnotations(root)
 		if (root.Name == xml.Name{schemaNS, "schema"}) {
 			result = append(result, root)
 		} else {
diff --git a/xsd/xsd.go b/xsd/xsd.go
index 88a207a..1073079 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -275,8 +275,8 @@ Loop:
 				}
 				continue
 			}
-			var frag []byte
-			if err := d.DecodeElement(&frag, &tok); err != nil {
+			frag, err := chardata(d)
+			if err != nil {
 				return err
 			}
 			buf = append(buf, bytes.TrimSpace(frag))
@@ -290,6 +290,27 @@ Loop:
 	return err
 }
 
+// chardata reads all character data up to the end of the current element,
+// including that of elements within it.
+func chardata(d *xml.Decoder) ([]byte, error) {
+	var text []byte
+	for depth := 1; depth > 0; {
+		tok, err := d.Token()
+		if err != nil {
+			return nil, err
+		}
+		switch tok := tok.(type) {
+		case xml.StartElement:
+			depth++
+		case xml.EndElement:
+			depth--
+		case xml.CharData:
+			text = append(text, tok...)
+		}
+	}
+	return text, nil
+}
+
 // XMLName returns the canonical xml name of a Type.
 func XMLName(t Type) xml.Name {
 	switch t := t.(type) {
-- 
2.43.0


From 65364a31706cd4f0ca1ae29625027fe9d89b4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:22 +0000
Subject: [PATCH 038/123] fix: unprefixed names in foreign attributes of a
 reference were moved into the default namespace of what it refers to

---
 xsd/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index d71fc9b..4829592 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -581,6 +581,9 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	// for xmlns conversion, we can just import the xmlns prefixes
 	if len(el.Children) > 0 {
 		el.Scope = *real.JoinScope(&ref.Scope)
+		if ref.Resolve("_").Space == "" && el.Resolve("_").Space != "" {
+			declareNS(el, "xmlns", "")
+		}
 	}
 
 	// Some attributes can contain a qname, and must be converted to use the
-- 
2.43.0


From d976c0b727d7f0e702761f94a6bd4f52be7e30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 039/123] fix: entities and CDATA sections in the documentation
 of services and operations were not decoded

---
 wsdl/wsdl.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..360cd0b 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"strings"
 
 	"aqwari.net/xml/xmltree"
@@ -92,11 +93,28 @@ func documentation(el *xmltree.Element) string {
 		if doc.Name.Local != "documentation" {
 			continue
 		}
-		docs = append(docs, doc.Content)
+		docs = append(docs, text(doc.Content))
 	}
 	return string(bytes.Join(docs, []byte{'\n'}))
 }
 
+// text returns the character data in the content of an element.
+func text(content []byte) []byte {
+	var result []byte
+	d := xml.NewDecoder(bytes.NewReader(content))
+	for {
+		tok, err := d.Token()
+		if err == io.EOF {
+			return result
+		} else if err != nil {
+			return content
+		}
+		if tok, ok := tok.(xml.CharData); ok {
+			result = append(result, tok...)
+		}
+	}
+}
+
 func parseMessages(targetNS string, root *xmltree.Element) map[xml.Name]Message {
 	messages := make(map[xml.Name]Message)
 	for _, msg := range root.Search(wsdlNS, "message") {
-- 
2.43.0


From 92c3ee12c4a8775b230a0ecb33c330e8a87dfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 040/123] fix: all but the last service of a definition were
 lost

---
 wsdl/wsdl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 360cd0b..bf2b662 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -226,8 +226,12 @@ func Parse(data []byte) (*Definition, error) {
 	def.Message = parseMessages(def.TargetNS, root)
 
 	for _, svc := range root.Search(wsdlNS, "service") {
-		def.Doc = documentation(svc)
-		def.Ports = parsePorts(def.TargetNS, root, svc)
+		if doc := documentation(svc); def.Doc != "" && doc != "" {
+			def.Doc += "\n" + doc
+		} else {
+			def.Doc += doc
+		}
+		def.Ports = append(def.Ports, parsePorts(def.TargetNS, root, svc)...)
 	}
 	return &def, nil
 }
-- 
2.43.0


From 8e1bea0add73193321ddb802305ab875518774ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:14 +0000
Subject: [PATCH 041/123] fix: names declared in a definition without a
 targetNamespace were put into the default namespace

---
 wsdl/wsdl.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index bf2b662..8719f3c 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -115,11 +115,21 @@ func text(content []byte) []byte {
 	}
 }
 
+// declName returns the canonical name of a declaration. Without a
+// targetNamespace it is in no namespace, whatever the default namespace is.
+func declName(el *xmltree.Element, targetNS string) xml.Name {
+	name := el.Attr("", "name")
+	if strings.Contains(name, ":") {
+		return el.Resolve(name)
+	}
+	return xml.Name{Space: targetNS, Local: name}
+}
+
 func parseMessages(targetNS string, root *xmltree.Element) map[xml.Name]Message {
 	messages := make(map[xml.Name]Message)
 	for _, msg := range root.Search(wsdlNS, "message") {
 		var m Message
-		m.Name = msg.ResolveDefault(msg.Attr("", "name"), targetNS)
+		m.Name = declName(msg, targetNS)
 		for _, part := range msg.Search(wsdlNS, "part") {
 			p := Part{
 				Name:    part.Attr("", "name"),
@@ -158,7 +168,7 @@ func parseMethod(targetNS string, root, port *xmltree.Element) string {
 	predicate := func(el *xmltree.Element) bool {
 		return el.Name.Space == wsdlNS &&
 			el.Name.Local == "binding" &&
-			el.ResolveDefault(el.Attr("", "name"), targetNS) == binding
+			declName(el, targetNS) == binding
 	}
 	for _, bind := range root.SearchFunc(predicate) {
 		for _, httpbind := range bind.Search(httpNS, "binding") {
@@ -177,7 +187,7 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 	predicate := func(el *xmltree.Element) bool {
 		return el.Name.Space == wsdlNS &&
 			el.Name.Local == "binding" &&
-			el.ResolveDefault(el.Attr("", "name"), targetNS) == binding
+			declName(el, targetNS) == binding
 	}
 
 	for _, bind := range root.SearchFunc(predicate) {
@@ -185,13 +195,13 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 		predicate := func(el *xmltree.Element) bool {
 			return el.Name.Space == wsdlNS &&
 				el.Name.Local == "portType" &&
-				el.ResolveDefault(el.Attr("", "name"), targetNS) == portType
+				declName(el, targetNS) == portType
 		}
 		for _, pt := range root.SearchFunc(predicate) {
 			for _, op := range pt.Search(wsdlNS, "operation") {
 				var oper Operation
 				oper.Doc = documentation(op)
-				oper.Name = op.ResolveDefault(op.Attr("", "name"), targetNS)
+				oper.Name = declName(op, targetNS)
 				for _, input := range op.Search(wsdlNS, "input") {
 					oper.Input = input.Resolve(input.Attr("", "message"))
 				}
-- 
2.43.0


From 3b0855803808d039bb9c2531e5cbd0d743110cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 042/123] fix: the actions of operations of a SOAP 1.2 binding
 were lost

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 8719f3c..443b99d 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -216,6 +216,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From a3ced8f028bc4c6a8b6750cf6c9d5528cb64787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:03 +0000
Subject: [PATCH 043/123] fix: the address of a port with an HTTP binding was
 lost

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 443b99d..cf74b8d 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -154,6 +154,9 @@ func parsePorts(targetNS string, root, svc *xmltree.Element) []Port {
 		for _, addr := range port.Search(soap12NS, "address") {
 			p.Address = addr.Attr("", "location")
 		}
+		for _, addr := range port.Search(httpNS, "address") {
+			p.Address = addr.Attr("", "location")
+		}
 		p.Method = "POST"
 		p.Method = parseMethod(targetNS, root, port)
 		p.Operations = parseOperations(targetNS, root, port)
-- 
2.43.0


From fe7323c71d28b8ebbd0de8ae48826a345c2e354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 044/123] fix: documentation elements of other namespaces were
 taken for documentation of a service or operation

---
 wsdl/wsdl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index cf74b8d..206cfb3 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -90,7 +90,7 @@ type Port struct {
 func documentation(el *xmltree.Element) string {
 	var docs [][]byte
 	for _, doc := range el.Children {
-		if doc.Name.Local != "documentation" {
+		if (doc.Name != xml.Name{wsdlNS, "documentation"}) {
 			continue
 		}
 		docs = append(docs, text(doc.Content))
-- 
2.43.0


From 0dcfc6b0f7ee028bbed329f449a2cb998f7fbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 045/123] fix: types that say neither what they restrict nor
 what they extend had a nil base type

---
 xsd/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 4829592..f0a282f 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -909,6 +909,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnyType
+	}
 	t.Doc = string(doc.append(annotation(t.Doc)))
 	return &t
 }
@@ -933,6 +936,9 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 			}
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnySimpleType
+	}
 	t.Doc = string(annotation(t.Doc).append(doc))
 }
 
@@ -1215,12 +1221,14 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			for _, name := range strings.Fields(el.Attr("", "memberTypes")) {
 				type_ := parseType(el.Resolve(name))
 				t.Union = append(t.Union, type_)
-				t.Base = AnySimpleType
 			}
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnySimpleType
+	}
 	t.Doc = string(doc)
 	return &t
 }
-- 
2.43.0


From c41e2fe5b47a4a50a0076e3dc589af76834173e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:19 +0000
Subject: [PATCH 046/123] fix: an abstract or mixed attribute of a complex type
 that is not a boolean was reported without the name of the type

---
 xsd/parse.go | 6 ++++--
 xsd/walk.go  | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index f0a282f..6c3eaa2 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -891,8 +891,10 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	var t ComplexType
 	var doc annotation
 	t.Name = declName(root, s.TargetNS)
-	t.Abstract = parseBool(root.Attr("", "abstract"))
-	t.Mixed = parseBool(root.Attr("", "mixed"))
+	at(root, func() {
+		t.Abstract = parseBool(root.Attr("", "abstract"))
+		t.Mixed = parseBool(root.Attr("", "mixed"))
+	})
 
 	// We set this special attribute in a pre-processing step.
 	t.Anonymous = (root.Attr("", "_isAnonymous") == "true")
diff --git a/xsd/walk.go b/xsd/walk.go
index c5f77b0..26998fe 100644
--- a/xsd/walk.go
+++ b/xsd/walk.go
@@ -31,7 +31,8 @@ func stop(msg string) {
 	panic(parseError{message: msg})
 }
 
-func walk(root *xmltree.Element, fn func(*xmltree.Element)) {
+// at calls fn. If fn stops, root is added to the path of the error.
+func at(root *xmltree.Element, fn func()) {
 	defer func() {
 		if r := recover(); r != nil {
 			if err, ok := r.(parseError); ok {
@@ -42,13 +43,17 @@ func walk(root *xmltree.Element, fn func(*xmltree.Element)) {
 			}
 		}
 	}()
+	fn()
+}
+
+func walk(root *xmltree.Element, fn func(*xmltree.Element)) {
 	for i := 0; i < len(root.Children); i++ {
 		// We don't care about elements outside of the
 		// XML schema namespace
 		if root.Children[i].Name.Space != schemaNS {
 			continue
 		}
-		fn(&root.Children[i])
+		at(root, func() { fn(&root.Children[i]) })
 	}
 }
 
-- 
2.43.0


From 015dd3b9b1e1ed2e26539605a1d9876928ce1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 047/123] fix: unbounded was accepted as a length or a number
 of digits

---
 xsd/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6c3eaa2..ad1b5ba 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1068,7 +1068,9 @@ func parseOccurs(el *xmltree.Element) (min, max int) {
 		}
 	}
 	if s := strings.TrimSpace(el.Attr("", "maxOccurs")); s != "" {
-		if max = parseInt(s); max < 0 && s != "unbounded" {
+		if s == "unbounded" {
+			max = -1
+		} else if max = parseInt(s); max < 0 {
 			stop("Invalid maxOccurs value " + s)
 		}
 	}
@@ -1095,8 +1097,6 @@ func parseInt(s string) int {
 	switch s {
 	case "":
 		return 0
-	case "unbounded":
-		return -1
 	}
 	n, err := strconv.Atoi(s)
 	if err != nil {
-- 
2.43.0


From 2da8c7687d652564ec52033ec465cef019bca327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 048/123] fix: bounds of times, durations and parts of dates
 and of dates with, or date-times without, a time zone were rejected, and
 date-time bounds of derived types were lost

---
 xsd/parse.go | 68 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ad1b5ba..7b31e87 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1296,42 +1296,54 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 	return r
 }
 
+// The time zone of a date is optional.
+var (
+	dateFormats     = []string{"2006-01-02", "2006-01-02Z07:00"}
+	dateTimeFormats = []string{"2006-01-02T15:04:05", "2006-01-02T15:04:05Z07:00"}
+)
+
+// Durations, times and parts of dates can not be recorded in a Restriction.
+var otherBounds = regexp.MustCompile(`^(-?P[0-9T].*|\d\d:\d\d:\d\d.*|(--\d\d|---\d\d|--\d\d-\d\d|-?\d{4,}|-?\d{4,}-\d\d)(Z|[-+]\d\d:\d\d)?)$`)
+
+func parseDate(s string, formats ...string) (date time.Time, err error) {
+	for _, format := range formats {
+		if date, err = time.Parse(format, s); err == nil {
+			break
+		}
+	}
+	return date, err
+}
+
 // For minInclusive, minExclusive, maxInclusive and maxExclusive restrictions
 func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
 	var date time.Time
-	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
-		}
+	var err error
 
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
-			if err != nil {
-				stop(err.Error())
-			}
-			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+	value := strings.TrimSpace(el.Attr("", "value"))
+	switch base {
+	case Date:
+		date, err = parseDate(value, dateFormats...)
+	case DateTime:
+		date, err = parseDate(value, dateTimeFormats...)
+	case Time, Duration, GDay, GMonth, GMonthDay, GYear, GYearMonth:
+		return date, 0
+	default:
+		if _, ok := base.(linkedType); !ok {
+			return date, parseDecimal(value)
 		}
-	} else if _, ok := base.(linkedType); ok {
 		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
-		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
-			}
-			date = d
+		if date, err = parseDate(value, append(dateFormats, dateTimeFormats...)...); err == nil {
+			break
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
+		if _, err := strconv.ParseFloat(value, 64); err != nil && otherBounds.MatchString(value) {
+			return time.Time{}, 0
+		}
+		return time.Time{}, parseDecimal(value)
+	}
+	if err != nil {
+		stop(err.Error())
 	}
-	return date, decimal
+	return date, 0
 }
 
 // XML Schema defines its own flavor of regular expressions here:
-- 
2.43.0


From e225bde4d7855589455876e7aae166a1178795af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 049/123] fix: the alternatives of a pattern that is not
 supported were recorded as the whole pattern

---
 xsd/parse.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7b31e87..b3fd06c 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1245,6 +1245,7 @@ func parseAnnotation(el *xmltree.Element) (doc annotation) {
 func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 	var r Restriction
 	var doc annotation
+	var unsupported bool
 	// Most of the restrictions on a simpleType are suited for
 	// validating input. This package is not a validator; we assume
 	// that the server sends valid data, and that it will tell us if
@@ -1270,13 +1271,18 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 			// cannot compile a regex, we'll add the error msg to the annotation
 			// for this restriction.
 			pat := el.Attr("", "value")
-			if r.Pattern != nil {
-				pat = r.Pattern.String() + "|" + pat
-			}
 			reg, err := parsePattern(pat)
+			if err == nil && r.Pattern != nil {
+				reg, err = parsePattern(r.Pattern.String() + "|" + pat)
+			}
 			if err != nil {
 				msg := fmt.Sprintf("This type must conform to the pattern %q, but the XSD library could not parse the regular expression. (%v)", pat, err)
 				doc = doc.append(annotation(msg))
+				unsupported = true
+			}
+			if unsupported {
+				// values may match the pattern that we don't know
+				reg = nil
 			}
 			r.Pattern = reg
 		case "whiteSpace":
-- 
2.43.0


From a84748ee36400b8f86c4dd911c07bdc9b4cff009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 050/123] fix: the documentation of a schema was not recorded

---
 xsd/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index b3fd06c..641e180 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -857,6 +857,14 @@ func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 	defer catchParseError(&err)
 	tns := root.Attr("", "targetNamespace")
 
+	var doc annotation
+	walk(root, func(el *xmltree.Element) {
+		if el.Name.Local == "annotation" {
+			doc = doc.append(parseAnnotation(el))
+		}
+	})
+	s.Doc = string(doc)
+
 	for _, el := range root.Search(schemaNS, "complexType") {
 		t := s.parseComplexType(el)
 		s.Types[t.Name] = t
-- 
2.43.0


From e0979269fddda018c7be89927952adfe4366f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 051/123] fix: types of different namespaces whose names map to
 the same identifier were declared once

---
 xsdgen/config.go |  5 +++-
 xsdgen/xsdgen.go | 77 +++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..ca5dca9 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -42,6 +42,9 @@ type Config struct {
 	// if populated, only types that are true in this map
 	// will be selected.
 	allowTypes map[xml.Name]bool
+
+	// Go identifiers of the types being generated
+	typeNames map[xml.Name]string
 }
 
 type typeTransform func(xsd.Schema, xsd.Type) xsd.Type
@@ -447,7 +450,7 @@ func (cfg *Config) expr(t xsd.Type) (ast.Expr, error) {
 		}
 		return ex, nil
 	}
-	return ast.NewIdent(cfg.public(xsd.XMLName(t))), nil
+	return ast.NewIdent(cfg.typeName(xsd.XMLName(t))), nil
 }
 
 func (cfg *Config) exprString(t xsd.Type) string {
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..f725daa 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -172,20 +172,22 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
+	var types []xsd.Type
 	for _, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
-		types := cfg.flatten(primary.Types)
-		types = cfg.expandComplexTypes(types)
-		for _, t := range types {
-			specs, err := cfg.genTypeSpec(t)
-			if err != nil {
-				errList = append(errList, fmt.Errorf("gen type %q: %v",
-					xsd.XMLName(t).Local, err))
-			} else {
-				for _, s := range specs {
-					code.names[xsd.XMLName(s.xsdType)] = s.name
-					code.decls[s.name] = s
-				}
+		types = append(types, cfg.expandComplexTypes(cfg.flatten(primary.Types))...)
+	}
+	types = dedup(types)
+	cfg.nameTypes(types)
+	for _, t := range types {
+		specs, err := cfg.genTypeSpec(t)
+		if err != nil {
+			errList = append(errList, fmt.Errorf("gen type %q: %v",
+				xsd.XMLName(t).Local, err))
+		} else {
+			for _, s := range specs {
+				code.names[xsd.XMLName(s.xsdType)] = s.name
+				code.decls[s.name] = s
 			}
 		}
 	}
@@ -224,6 +226,47 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	return code, nil
 }
 
+// Types of different namespaces, or whose names are made the same by
+// the user's name transformations, must not share a Go identifier. The
+// first one, in the order of their XML names, gets the plain identifier.
+func (cfg *Config) nameTypes(types []xsd.Type) {
+	names := make([]xml.Name, 0, len(types))
+	taken := make(map[string]bool)
+	for _, t := range types {
+		if _, ok := t.(xsd.Builtin); !ok {
+			name := xsd.XMLName(t)
+			names = append(names, name)
+			taken[cfg.public(name)] = true
+		}
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	cfg.typeNames = make(map[xml.Name]string)
+	used := make(map[string]bool)
+	for _, name := range names {
+		id := cfg.public(name)
+		for i := 1; used[id]; i++ {
+			if unique := cfg.public(name) + strconv.Itoa(i); !taken[unique] {
+				id = unique
+			}
+		}
+		used[id] = true
+		cfg.typeNames[name] = id
+	}
+}
+
+// typeName returns the Go identifier of a declared type.
+func (cfg *Config) typeName(name xml.Name) string {
+	if id, ok := cfg.typeNames[name]; ok {
+		return id
+	}
+	return cfg.public(name)
+}
+
 // GenAST generates a Go abstract syntax tree with
 // the type declarations contained in the xml schema document.
 func (code *Code) GenAST() (*ast.File, error) {
@@ -773,7 +816,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	expr := gen.Struct(fields...)
 	s := spec{
 		doc:         t.Doc,
-		name:        cfg.public(t.Name),
+		name:        cfg.typeName(t.Name),
 		expr:        expr,
 		xsdType:     t,
 		helperTypes: helperTypes,
@@ -801,7 +844,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Type      string
 	}
 	data.Overrides = overrides
-	data.Type = cfg.public(t.Name)
+	data.Type = cfg.typeName(t.Name)
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
@@ -877,7 +920,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 		// first.
 		result = append(result, spec{
 			doc:     t.Doc,
-			name:    cfg.public(t.Name),
+			name:    cfg.typeName(t.Name),
 			expr:    builtinExpr(xsd.String),
 			xsdType: t,
 		})
@@ -891,7 +934,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 
 	spec, err := cfg.addSpecMethods(spec{
 		doc:     t.Doc,
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    base,
 		xsdType: t,
 	})
@@ -942,7 +985,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
 	}
-- 
2.43.0


From a7a55f833bedafaac2ea7edce0775053bae6a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 052/123] fix: code for lists of booleans, times, binary data,
 floats, positive integers, references and unsigned numbers did not compile or
 was not generated, and lists of bytes were not separated

---
 xsdgen/xsdgen.go | 85 ++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f725daa..f461f58 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1002,8 +1002,8 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		base = xsd.Base(base)
 	}
 
-	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	switch base := base.(xsd.Builtin); base {
+	case xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1017,27 +1017,33 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time, xsd.HexBinary, xsd.Base64Binary:
+		helper, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(helper.xsdType))
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
+				if b, err := %s(v).MarshalText(); err != nil {
+					return nil, err
 				} else {
 					result = append(result, b)
 				}
 			}
-			return bytes.Join(result, []byte(" "))
-		`)
+			return bytes.Join(result, []byte(" ")), nil
+		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range bytes.Fields(text) {
 				var t %s
 				if err := t.UnmarshalText(v); err != nil {
 					return err
 				}
-				*x = append(*x, t)
+				*x = append(*x, %s(t))
 			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
+			return nil
+		`, helper.name, cfg.exprString(base))
 	case xsd.Long:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
@@ -1056,26 +1062,30 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Decimal, xsd.Double:
+	case xsd.Decimal, xsd.Double, xsd.Float:
+		bits := 64
+		if base == xsd.Float {
+			bits = 32
+		}
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				s := strconv.FormatFloat(v, 'g', -1, 64)
+				s := strconv.FormatFloat(float64(v), 'g', -1, %d)
 				result = append(result, []byte(s))
 			}
 			return bytes.Join(result, []byte(" ")), nil
-		`)
+		`, bits)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if f, err := strconv.ParseFloat(v, 64); err != nil {
+				if f, err := strconv.ParseFloat(v, %d); err != nil {
 					return err
 				} else {
-					*x = append(*x, f)
+					*x = append(*x, %s(f))
 				}
 			}
 			return nil
-		`)
-	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.Short:
+		`, bits, cfg.exprString(base))
+	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger, xsd.Short:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1093,7 +1103,14 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.UnsignedInt, xsd.UnsignedShort:
+	case xsd.UnsignedLong, xsd.UnsignedInt, xsd.UnsignedShort, xsd.UnsignedByte, xsd.Byte:
+		bits := 32
+		switch base {
+		case xsd.UnsignedLong:
+			bits = 64
+		case xsd.UnsignedByte, xsd.Byte:
+			bits = 8
+		}
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1103,43 +1120,17 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseUint(v, 10, 32); err != nil {
+				if i, err := strconv.ParseUint(v, 10, %d); err != nil {
 					return err
 				} else {
-					*x = append(*x, uint(i))
+					*x = append(*x, %s(i))
 				}
 			}
 			return nil
-		`)
-	case xsd.UnsignedLong:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
-					return err
-				} else {
-					*x = append(*x, i)
-				}
-			}
-			return nil
-		`)
-	case xsd.Byte, xsd.UnsignedByte:
-		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
-			return nil
-		`, s.name)
+		`, bits, cfg.exprString(base))
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
+			result := make([][]byte, 0, len(*x))
 			for _, b := range *x {
 				if b {
 					result = append(result, []byte("1"))
-- 
2.43.0


From 23d8886fe2f42d85477d3d99b4066ca97fd221f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 053/123] fix: no code was generated for schemas without a
 target namespace

---
 xsdgen/xsdgen.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f461f58..a7ea1ab 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -51,10 +51,7 @@ func lookupTargetNS(data ...[]byte) []string {
 		}
 		elts := outer.Search("http://www.w3.org/2001/XMLSchema", "schema")
 		for _, el := range elts {
-			ns := el.Attr("", "targetNamespace")
-			if ns != "" {
-				result = append(result, ns)
-			}
+			result = append(result, el.Attr("", "targetNamespace"))
 		}
 	}
 	return result
-- 
2.43.0


From 3af9f51980ee639b60f53127c669557fc7d2d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 054/123] fix: a schema in an annotation was taken for one to
 generate code for

---
 xsdgen/xsdgen.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a7ea1ab..69c690f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -46,13 +46,18 @@ func lookupTargetNS(data ...[]byte) []string {
 		if err != nil {
 			continue
 		}
-		outer := xmltree.Element{
-			Children: []xmltree.Element{*tree},
-		}
-		elts := outer.Search("http://www.w3.org/2001/XMLSchema", "schema")
-		for _, el := range elts {
-			result = append(result, el.Attr("", "targetNamespace"))
+		// A schema may hold another one only as an annotation.
+		var walk func(el *xmltree.Element)
+		walk = func(el *xmltree.Element) {
+			if (el.Name == xml.Name{"http://www.w3.org/2001/XMLSchema", "schema"}) {
+				result = append(result, el.Attr("", "targetNamespace"))
+				return
+			}
+			for i := range el.Children {
+				walk(&el.Children[i])
+			}
 		}
+		walk(tree)
 	}
 	return result
 }
-- 
2.43.0


From 36f7a31b5875074efeaf3164591247a8f871e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 055/123] fix: restrictions of list types were generated as
 single items

---
 xsdgen/xsdgen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 69c690f..ba23c18 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -459,6 +459,7 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 			base, builtin xsd.Type
 			ok            bool
 		)
+		inheritVariety(t)
 		// TODO: handle list/union types
 		for base = xsd.Base(t); base != nil; base = xsd.Base(base) {
 			if builtin, ok = base.(xsd.Builtin); ok {
@@ -567,6 +568,18 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 	panic(fmt.Errorf("unexpected %T(%s %s)", t, xsd.XMLName(t).Space, xsd.XMLName(t).Local))
 }
 
+// A restriction of a list or union type is a list or union itself, which
+// is not apparent once it is based directly on a builtin type.
+func inheritVariety(t *xsd.SimpleType) {
+	if t.List || len(t.Union) > 0 {
+		return
+	}
+	if base, ok := t.Base.(*xsd.SimpleType); ok {
+		inheritVariety(base)
+		t.List, t.Union = base.List, base.Union
+	}
+}
+
 func (cfg *Config) genTypeSpec(t xsd.Type) (result []spec, err error) {
 	var s []spec
 	cfg.debugf("generating type spec for %q", xsd.XMLName(t).Local)
-- 
2.43.0


From 19190be60be8388f2cdc9ae14e67faca293f1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:25 +0000
Subject: [PATCH 056/123] fix: fields for wildcards and character data were
 declared twice when an element or attribute had their name

---
 xsdgen/xsdgen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index ba23c18..1eb202f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -653,7 +653,11 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var overrides []fieldOverride
 	var helperTypes []xml.Name
 
-	namegen := nameGenerator{cfg, make(map[string]struct{})}
+	// A field must not have the name of a method the type may have
+	namegen := nameGenerator{cfg, map[string]struct{}{
+		"MarshalXML":   {},
+		"UnmarshalXML": {},
+	}}
 
 	if t.Mixed {
 		// For complex types with mixed content models, we must drill
@@ -675,7 +679,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			fields = append(fields, namegen.unique(cfg.exprString(b)), expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -747,13 +751,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
-		if el.Wildcard {
+		var name ast.Expr
+		if !el.Wildcard {
+			name = namegen.element(el.Name)
+		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From fc11da20d96d86c9c0470059979409009d2c1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 057/123] fix: a type derived from one that was replaced by its
 simple content was declared or replaced depending on the order of types

---
 xsdgen/xsdgen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 1eb202f..07646d0 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -511,6 +511,10 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 		}
 		return t.Base
 	case *xsd.ComplexType:
+		// The base may be "unpacked" in turn.
+		if base, ok := t.Base.(*xsd.ComplexType); ok {
+			t.Base = cfg.flatten1(base, push, depth+1)
+		}
 		// We can "unpack" a struct if it is extending a simple
 		// or built-in type and we are ignoring all of its attributes.
 		switch t.Base.(type) {
-- 
2.43.0


From df0a844e1231e61cccb4515526d73d2a4126ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 058/123] fix: methods of types named T, or that have a field
 named T, did not compile

---
 xsdgen/xsdgen.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 07646d0..dc6f5ec 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -867,25 +867,40 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		Local     string
 	}
 	data.Overrides = overrides
 	data.Type = cfg.typeName(t.Name)
 
+	// The type without methods that the methods declare must not
+	// hide a type they need, or have the name of a field.
+	taken := make(map[string]bool)
+	for _, name := range cfg.typeNames {
+		taken[name] = true
+	}
+	for _, v := range overrides {
+		taken[v.FieldName] = true
+	}
+	data.Local = "T"
+	for i := 0; taken[data.Local]; i++ {
+		data.Local = "T" + strconv.Itoa(i)
+	}
+
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Local}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.Local}}
 				{{range .Overrides}}
 				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.Local}} = (*{{.Local}})(t)
 			{{range .Overrides}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Local}}.{{.FieldName}})
 			{{if .DefaultValue -}}
 			// overlay.{{.FieldName}} = {{.DefaultValue}}
 			{{end -}}
@@ -916,16 +931,16 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Local}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.Local}}
 				{{- range .Overrides}}
 				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.Local}} = (*{{.Local}})(t)
 			{{- range .Overrides}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
-- 
2.43.0


From 674111b74a0d2a55ad88aef5224a10c03ce45c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 059/123] fix: methods of types with repeated elements of a
 time or binary type did not compile

---
 xsdgen/xsdgen.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index dc6f5ec..ae819da 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -610,6 +610,7 @@ type fieldOverride struct {
 	DefaultValue     string
 	Type             xsd.Type
 	Tag              string
+	Plural           bool
 }
 
 type nameGenerator struct {
@@ -791,6 +792,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         el.Type,
+				Plural:       el.Plural,
 			})
 		}
 	}
@@ -868,6 +870,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Overrides []fieldOverride
 		Type      string
 		Local     string
+		Plural    bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.typeName(t.Name)
@@ -880,6 +883,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	}
 	for _, v := range overrides {
 		taken[v.FieldName] = true
+		data.Plural = data.Plural || v.Plural
 	}
 	data.Local = "T"
 	for i := 0; taken[data.Local]; i++ {
@@ -895,18 +899,32 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var overlay struct{
 				*{{.Local}}
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
 			overlay.{{.Local}} = (*{{.Local}})(t)
 			{{range .Overrides}}
+			{{if not .Plural -}}
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Local}}.{{.FieldName}})
+			{{end -}}
 			{{if .DefaultValue -}}
 			// overlay.{{.FieldName}} = {{.DefaultValue}}
 			{{end -}}
 			{{end}}
 
+			{{if .Plural -}}
+			if err := d.DecodeElement(&overlay, &start); err != nil {
+				return err
+			}
+			{{range .Overrides}}{{if .Plural -}}
+			for _, v := range overlay.{{.FieldName}} {
+				t.{{.FieldName}} = append(t.{{.FieldName}}, ({{.FromType}})(v))
+			}
+			{{end}}{{end -}}
+			return nil
+			{{else -}}
 			return d.DecodeElement(&overlay, &start)
+			{{end -}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -935,13 +953,19 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var layout struct{
 				*{{.Local}}
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
 			layout.{{.Local}} = (*{{.Local}})(t)
 			{{- range .Overrides}}
+			{{if .Plural -}}
+			for _, v := range layout.{{$.Local}}.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
+			}
+			{{else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
 			{{end -}}
+			{{end -}}
 
 			return e.EncodeElement(layout, start)
 		`, data).Decl()
-- 
2.43.0


From b87b06fcb51181c25e336d487147ac7c711244a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:53 +0000
Subject: [PATCH 060/123] fix: types that contain themselves in an element that
 is not repeated did not compile

---
 xsdgen/xsdgen.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index ae819da..0a39904 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -652,6 +652,25 @@ func (gen *nameGenerator) element(base xml.Name) ast.Expr {
 	return gen.unique(name)
 }
 
+// contains reports whether a value of type t is, or always holds, a
+// value of the complex type with the given name.
+func contains(t xsd.Type, name xml.Name, seen map[xml.Name]bool) bool {
+	c, ok := t.(*xsd.ComplexType)
+	if !ok || seen[c.Name] {
+		return false
+	}
+	if c.Name == name {
+		return true
+	}
+	seen[c.Name] = true
+	for _, el := range c.Elements {
+		if !el.Plural && contains(el.Type, name, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var result []spec
 	var fields []ast.Expr
@@ -773,6 +792,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
+		} else if contains(el.Type, t.Name, make(map[xml.Name]bool)) {
+			// A struct cannot contain itself
+			base = &ast.StarExpr{X: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
 		if el.Default != "" || nonTrivialBuiltin(el.Type) {
-- 
2.43.0


From b7b14b84cdecfec5c559edb7f8d0d70fa5002695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 061/123] fix: UseFieldNames gave anonymous types names that
 other types had

---
 xsdgen/config.go | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index ca5dca9..df84573 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -317,40 +317,31 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	// A type keeps its name if the new one is that of another type.
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
-- 
2.43.0


From 9567450c0ae6d74e087a715d0c26e086cc463583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 062/123] fix: the time and memory needed for nested and
 recursive types was exponential

---
 xsdgen/config.go |  2 ++
 xsdgen/xsdgen.go | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index df84573..4d1fbe1 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -45,6 +45,8 @@ type Config struct {
 
 	// Go identifiers of the types being generated
 	typeNames map[xml.Name]string
+	// Results of flattening the complex types being generated
+	flattened map[*xsd.ComplexType]xsd.Type
 }
 
 type typeTransform func(xsd.Schema, xsd.Type) xsd.Type
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0a39904..47c8792 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -174,6 +174,7 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
+	cfg.flattened = make(map[*xsd.ComplexType]xsd.Type)
 	var types []xsd.Type
 	for _, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
@@ -447,7 +448,7 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) (result xsd.Type) {
 	const maxDepth = 1000
 	if depth > maxDepth {
 		return t
@@ -511,6 +512,14 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 		}
 		return t.Base
 	case *xsd.ComplexType:
+		// A type may be used many times, also by itself.
+		if done, ok := cfg.flattened[t]; ok {
+			return done
+		}
+		if cfg.flattened != nil {
+			cfg.flattened[t] = t
+			defer func() { cfg.flattened[t] = result }()
+		}
 		// The base may be "unpacked" in turn.
 		if base, ok := t.Base.(*xsd.ComplexType); ok {
 			t.Base = cfg.flatten1(base, push, depth+1)
-- 
2.43.0


From bde9dab23bd3c5df94c2a60a809ab7d319bb1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 063/123] fix: generating code for a derived binary or time
 type whose name is no Go identifier panicked

---
 xsdgen/xsdgen.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 47c8792..c273920 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1054,18 +1054,25 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 	s.helperTypes = append(s.helperTypes,
 		xsd.XMLName(helper.xsdType))
 
-	s.methods = append(s.methods, gen.Func("UnmarshalText").
+	unmarshal, err := gen.Func("UnmarshalText").
 		Receiver("t *"+s.name).
 		Args("text []byte").
 		Returns("error").
 		Body(`return (*%s)(t).UnmarshalText(text)`, helper.name).
-		MustDecl())
+		Decl()
+	if err != nil {
+		return s, err
+	}
 
-	s.methods = append(s.methods, gen.Func("MarshalText").
+	marshal, err := gen.Func("MarshalText").
 		Receiver("t "+s.name).
 		Returns("[]byte", "error").
 		Body(`return %s(t).MarshalText()`, helper.name).
-		MustDecl())
+		Decl()
+	if err != nil {
+		return s, err
+	}
+	s.methods = append(s.methods, unmarshal, marshal)
 
 	return s, nil
 }
-- 
2.43.0


From ff4e15862b2cd7392b90116c8662602eb00b7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 064/123] fix: an element that an extension adds to those of
 the same name it inherits was generated as if there were only one

---
 xsdgen/xsdgen.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index c273920..fba1abf 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -359,11 +359,11 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 		cfg.debugf("complexType %s: expanding base %s fields",
 			c.Name.Local, b.Name.Local)
 
-		shadowedElements := make(map[xml.Name]struct{})
+		shadowedElements := make(map[xml.Name]int)
 		shadowedAttributes := make(map[xml.Name]struct{})
 
-		for _, el := range c.Elements {
-			shadowedElements[el.Name] = struct{}{}
+		for i, el := range c.Elements {
+			shadowedElements[el.Name] = i
 		}
 		for _, attr := range c.Attributes {
 			shadowedAttributes[attr.Name] = struct{}{}
@@ -371,8 +371,13 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 
 		elements := []xsd.Element{}
 		for _, el := range b.Elements {
-			if _, ok := shadowedElements[el.Name]; !ok {
+			if i, ok := shadowedElements[el.Name]; !ok {
 				elements = append(elements, el)
+			} else if own := &c.Elements[i]; c.Extends && !el.Wildcard {
+				// What an extension adds follows what it inherits
+				own.Plural = true
+				own.Optional = own.Optional && el.Optional
+				own.Nillable = own.Nillable || el.Nillable
 			} else {
 				cfg.debugf("complexType %s: extended element %s is overrided",
 					c.Name.Local, el.Name.Local)
-- 
2.43.0


From 2427035005acc3413b1bcf813c429b84a20ab6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 065/123] fix: a wildcard that an extension adds to one it
 inherits was generated as if there were only one

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index fba1abf..5fa582c 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -373,7 +373,7 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 		for _, el := range b.Elements {
 			if i, ok := shadowedElements[el.Name]; !ok {
 				elements = append(elements, el)
-			} else if own := &c.Elements[i]; c.Extends && !el.Wildcard {
+			} else if own := &c.Elements[i]; c.Extends {
 				// What an extension adds follows what it inherits
 				own.Plural = true
 				own.Optional = own.Optional && el.Optional
-- 
2.43.0


From 590085c3691b6a2a0d90bd6f4efd559a8a755e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 066/123] fix: restrictions of unions used as list items were
 generated as strings, depending on the order of types

---
 xsdgen/xsdgen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 5fa582c..a48dd7b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -589,11 +589,12 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) (result
 // A restriction of a list or union type is a list or union itself, which
 // is not apparent once it is based directly on a builtin type.
 func inheritVariety(t *xsd.SimpleType) {
-	if t.List || len(t.Union) > 0 {
+	base, ok := t.Base.(*xsd.SimpleType)
+	if !ok {
 		return
 	}
-	if base, ok := t.Base.(*xsd.SimpleType); ok {
-		inheritVariety(base)
+	inheritVariety(base)
+	if !t.List && len(t.Union) == 0 {
 		t.List, t.Union = base.List, base.Union
 	}
 }
-- 
2.43.0


From 2a68aa897e528c66e96ebe8489dd3c2ece275f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 067/123] fix: which anonymous type got the name of its element
 changed from run to run

---
 xsdgen/xsdgen.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a48dd7b..2bbeea0 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -162,8 +162,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			for _, name := range sortedNames(prev) {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
@@ -242,12 +242,7 @@ func (cfg *Config) nameTypes(types []xsd.Type) {
 			taken[cfg.public(name)] = true
 		}
 	}
-	sort.Slice(names, func(i, j int) bool {
-		if names[i].Space != names[j].Space {
-			return names[i].Space < names[j].Space
-		}
-		return names[i].Local < names[j].Local
-	})
+	sortNames(names)
 	cfg.typeNames = make(map[xml.Name]string)
 	used := make(map[string]bool)
 	for _, name := range names {
@@ -422,7 +417,8 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
-	for _, t := range types {
+	for _, name := range sortedNames(types) {
+		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
 			continue
 		}
@@ -442,6 +438,25 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	return dedup(result)
 }
 
+func sortNames(names []xml.Name) {
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+}
+
+// The order of types must not depend on that of a map.
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sortNames(names)
+	return names
+}
+
 func dedup(types []xsd.Type) (unique []xsd.Type) {
 	seen := make(map[xml.Name]bool)
 	for _, v := range types {
-- 
2.43.0


From c315241d584764f4b2ba8f2a1ce02fdef7496f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:35 +0000
Subject: [PATCH 068/123] fix: A missing or unreadable file made xsdgen write
 an empty package and succeed

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..633704b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3c40a1974294d011fc9f4b1a6589e84a4eabfc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:53 +0000
Subject: [PATCH 069/123] fix: xsdgen -f did not end when files import each
 other, took locations relative to the working directory and failed on imports
 without a location

---
 xsdgen/cli.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 633704b..23b81b9 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"os"
+	"path/filepath"
 	"strings"
 
 	"aqwari.net/xml/internal/commandline"
@@ -65,9 +67,26 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	var seen []os.FileInfo
+	return cfg.readImports(&seen, files...)
+}
+
+// readImports reads files and, if so configured, those that they import.
+// Files that have been seen are not read again.
+func (cfg *Config) readImports(seen *[]os.FileInfo, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if cfg.followImports {
+			info, err := os.Stat(filename)
+			if err != nil {
+				return nil, err
+			}
+			if containsFile(*seen, info) {
+				continue
+			}
+			*seen = append(*seen, info)
+		}
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -80,9 +99,16 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				if r.Location == "" {
+					continue
+				}
+				location := filepath.FromSlash(r.Location)
+				if !filepath.IsAbs(location) {
+					location = filepath.Join(filepath.Dir(filename), location)
+				}
+				importedFiles = append(importedFiles, location)
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readImports(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
@@ -96,6 +122,15 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 	return data, nil
 }
 
+func containsFile(files []os.FileInfo, info os.FileInfo) bool {
+	for _, f := range files {
+		if os.SameFile(f, info) {
+			return true
+		}
+	}
+	return false
+}
+
 // The GenSource method converts the AST returned by GenAST to formatted
 // Go source code.
 func (cfg *Config) GenSource(files ...string) ([]byte, error) {
-- 
2.43.0


From 824cd7b8048a96e6e8c879ce605eccbcb720c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:37 +0000
Subject: [PATCH 070/123] fix: xsdgen and wsdlgen left part of the output file
 behind when writing it failed

---
 internal/commandline/cli.go | 14 ++++++++++++++
 wsdlgen/cli.go              |  3 +--
 xsdgen/cli.go               |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/commandline/cli.go b/internal/commandline/cli.go
index 4ccba2d..9970bd6 100644
--- a/internal/commandline/cli.go
+++ b/internal/commandline/cli.go
@@ -5,6 +5,8 @@ package commandline // import "aqwari.net/xml/internal/commandline"
 import (
 	"bytes"
 	"fmt"
+	"io/ioutil"
+	"os"
 	"regexp"
 	"strings"
 )
@@ -58,3 +60,15 @@ func (s *Strings) Set(val string) error {
 	*s = append(*s, val)
 	return nil
 }
+
+// WriteFile writes data to the named file. If that fails, no part of
+// the file is left behind.
+func WriteFile(name string, data []byte) error {
+	err := ioutil.WriteFile(name, data, 0666)
+	if err != nil {
+		if info, e := os.Lstat(name); e == nil && info.Mode().IsRegular() {
+			os.Remove(name)
+		}
+	}
+	return err
+}
diff --git a/wsdlgen/cli.go b/wsdlgen/cli.go
index c0fe60f..374692d 100644
--- a/wsdlgen/cli.go
+++ b/wsdlgen/cli.go
@@ -3,7 +3,6 @@ package wsdlgen
 import (
 	"errors"
 	"flag"
-	"io/ioutil"
 	"log"
 	"os"
 
@@ -73,7 +72,7 @@ func (cfg *Config) GenCLI(arguments ...string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(*output, data, 0666)
+	return commandline.WriteFile(*output, data)
 }
 
 // The GenCLI function generates Go source code using the default
diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 23b81b9..088f4cf 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -190,5 +190,5 @@ func (cfg *Config) GenCLI(arguments ...string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(*output, data, 0666)
+	return commandline.WriteFile(*output, data)
 }
-- 
2.43.0


From d936c8bd8febd638eb2fd1bebc2a6649f7b975a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 071/123] fix: a requested namespace that no file declares was
 ignored where another had several schema elements, and one requested twice
 was missed

---
 xsdgen/cli.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 088f4cf..63e040e 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -36,17 +36,17 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range cfg.namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	var missing []string
+	for _, ns := range cfg.namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From 24cce1b09a325db1a912552d6d7eae8c750624e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:43 +0000
Subject: [PATCH 072/123] fix: clients of operations with more outputs than the
 threshold did not compile

---
 wsdlgen/wsdlgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..320e95b 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -228,14 +228,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
-- 
2.43.0


From 75ef4ed81be05cc596b884445e1ce2afc472e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 073/123] fix: clients of services with operations of the same
 name, or with two ports for the same operations, did not compile

---
 wsdlgen/wsdlgen.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 320e95b..dbe3ce2 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -34,6 +34,15 @@ type printer struct {
 	code *xsdgen.Code
 	wsdl *wsdl.Definition
 	file *ast.File
+	// Operations there is a method for. Ports that differ in address
+	// or binding only have operations in common.
+	done map[operationKey]bool
+	// Names of the fields and methods of the client
+	members map[string]bool
+}
+
+type operationKey struct {
+	name, input, output xml.Name
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -135,6 +144,10 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 		wsdl:   def,
 		file:   file,
 		code:   code,
+		done:   make(map[operationKey]bool),
+		members: map[string]bool{
+			"HTTPClient": true, "ResponseHook": true, "RequestHook": true, "do": true,
+		},
 	}
 	return p.genAST()
 }
@@ -151,6 +164,11 @@ func (p *printer) genAST() (*ast.File, error) {
 
 func (p *printer) port(port wsdl.Port) error {
 	for _, operation := range port.Operations {
+		key := operationKey{operation.Name, operation.Input, operation.Output}
+		if p.done[key] {
+			continue
+		}
+		p.done[key] = true
 		if err := p.operation(port, operation); err != nil {
 			return err
 		}
@@ -199,7 +217,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	args := append([]string{"ctx context.Context"}, params.input...)
-	fn := gen.Func(p.xsdgen.NameOf(op.Name)).
+	fn := gen.Func(unique(p.members, p.xsdgen.NameOf(op.Name))).
 		Comment(op.Doc).
 		Receiver("c *Client").
 		Args(args...).
@@ -249,6 +267,16 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
+// unique gives a name that is not taken yet, derived from the given one.
+func unique(taken map[string]bool, name string) string {
+	result := name
+	for i := 2; taken[result]; i++ {
+		result = fmt.Sprintf("%s%d", name, i)
+	}
+	taken[result] = true
+	return result
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
-- 
2.43.0


From 43a60257a48b6acbc4121fac633ef699549132ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:08 +0000
Subject: [PATCH 074/123] fix: the OnlyPorts option and the -port flag of
 wsdlgen had no effect

---
 wsdlgen/config.go  | 21 +++++++++++++--------
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..9b94dc6 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -68,16 +68,21 @@ var DefaultOptions = []Option{
 // code for. Any other ports will not have types or methods present in
 // the generated output.
 func OnlyPorts(ports ...string) Option {
-	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
-			for _, name := range ports {
-				if name == p.Name {
-					return true
-				}
+	return filterPorts(func(p wsdl.Port) bool {
+		for _, name := range ports {
+			if name == p.Name {
+				return true
 			}
-			return false
 		}
-		return OnlyPorts()
+		return false
+	})
+}
+
+func filterPorts(filter func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = filter
+		return filterPorts(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index dbe3ce2..9853126 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -155,6 +155,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 64df6e4bada92c413d4dd9ba6f9b854f2e285e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 075/123] fix: methods did not compile for parts with certain
 names: those of what the method uses, those alike but for case, and those
 that are no identifiers

---
 wsdlgen/wsdlgen.go | 67 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 9853126..ae8e61f 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -14,8 +14,10 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	gotypes "go/types"
 	"io/ioutil"
 	"strings"
+	"unicode"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -280,6 +282,42 @@ func unique(taken map[string]bool, name string) string {
 	return result
 }
 
+// identifier gives a Go identifier that is not taken yet, derived from
+// the given name.
+func identifier(taken map[string]bool, name string) string {
+	name = gen.Sanitize(strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name))
+	for taken[name] {
+		name += "_"
+	}
+	taken[name] = true
+	return name
+}
+
+// bodyNames lists the identifiers that mean something in the body of a
+// method that converts between values of the given types.
+func bodyNames(types []string) map[string]bool {
+	names := map[string]bool{
+		"c": true, "ctx": true, "input": true, "output": true,
+		"err": true, "result": true, "context": true, "_": true,
+	}
+	for _, name := range gotypes.Universe.Names() {
+		names[name] = true
+	}
+	for _, typ := range types {
+		for _, name := range strings.FieldsFunc(typ, func(r rune) bool {
+			return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+		}) {
+			names[name] = true
+		}
+	}
+	return names
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
@@ -322,19 +360,22 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
-	for _, part := range input.Parts {
+	var types []string
+	for _, part := range append(append([]wsdl.Part(nil), input.Parts...), output.Parts...) {
 		typ, err := p.getPartType(part)
 		if err != nil {
 			return args, err
 		}
+		types = append(types, typ)
+	}
+	vars, fields := bodyNames(types), make(map[string]bool)
+	for i, part := range input.Parts {
+		typ := types[i]
 		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
-		if vname == typ {
-			vname += "_"
-		}
+		vname := identifier(vars, part.Name)
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       identifier(fields, strings.Title(part.Name)),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
@@ -344,20 +385,18 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	if len(args.input) > p.maxArgs {
 		args.InputType = strings.Title(args.InputName.Local)
 		args.input = []string{"v " + args.InputName.Local}
-		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
+		for i, f := range args.InputFields {
+			args.InputFields[i].InputArg = "v." + f.Name
 		}
 	}
 	args.OutputName = output.Name
-	for _, part := range output.Parts {
-		typ, err := p.getPartType(part)
-		if err != nil {
-			return args, err
-		}
+	fields = make(map[string]bool)
+	for i, part := range output.Parts {
+		typ := types[len(input.Parts)+i]
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
+			Name:    identifier(fields, strings.Title(part.Name)),
 			Type:    typ,
 			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
 		})
-- 
2.43.0


From c4ce47d5d74548940a165a4ed02d89aaef61dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:48 +0000
Subject: [PATCH 076/123] fix: wrapper structs of messages that are used twice,
 or are called like a type, did not compile

---
 wsdlgen/wsdlgen.go | 50 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index ae8e61f..102ad9e 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -41,6 +41,10 @@ type printer struct {
 	done map[operationKey]bool
 	// Names of the fields and methods of the client
 	members map[string]bool
+	// Names of the declared types
+	types map[string]bool
+	// Wrapper structs of messages
+	wrappers map[xml.Name]string
 }
 
 type operationKey struct {
@@ -150,12 +154,23 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 		members: map[string]bool{
 			"HTTPClient": true, "ResponseHook": true, "RequestHook": true, "do": true,
 		},
+		wrappers: make(map[xml.Name]string),
 	}
 	return p.genAST()
 }
 
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
+	p.types = make(map[string]bool)
+	for _, decl := range p.file.Decls {
+		if decl, ok := decl.(*ast.GenDecl); ok {
+			for _, spec := range decl.Specs {
+				if spec, ok := spec.(*ast.TypeSpec); ok {
+					p.types[spec.Name.Name] = true
+				}
+			}
+		}
+	}
 	for _, port := range p.wsdl.Ports {
 		if p.portFilter != nil && !p.portFilter(port) {
 			continue
@@ -195,7 +210,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		return err
 	}
 
-	if params.InputType != "" {
+	if params.InputType != "" && !p.types[params.InputType] {
+		p.types[params.InputType] = true
 		decls, err := gen.Snippets(params, `
 			type {{.InputType}} struct {
 			{{ range .InputFields -}}
@@ -208,7 +224,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
-	if params.ReturnType != "" {
+	if params.ReturnType != "" && !p.types[params.ReturnType] {
+		p.types[params.ReturnType] = true
 		decls, err := gen.Snippets(params, `
 			type {{.ReturnType}} struct {
 			{{ range .ReturnFields -}}
@@ -291,13 +308,34 @@ func identifier(taken map[string]bool, name string) string {
 		}
 		return '_'
 	}, name))
-	for taken[name] {
+	if strings.IndexFunc(name, unicode.IsDigit) == 0 {
+		name = "N" + name
+	}
+	for taken[name] || name == "_" {
 		name += "_"
 	}
 	taken[name] = true
 	return name
 }
 
+// wrapper gives the name of the wrapper struct for a message. Different
+// operations may use the same message.
+func (p *printer) wrapper(message xml.Name) string {
+	name, ok := p.wrappers[message]
+	if !ok {
+		taken := make(map[string]bool)
+		for _, name := range p.wrappers {
+			taken[name] = true
+		}
+		for name := range p.types {
+			taken[name] = true
+		}
+		name = identifier(taken, strings.Title(message.Local))
+		p.wrappers[message] = name
+	}
+	return name
+}
+
 // bodyNames lists the identifiers that mean something in the body of a
 // method that converts between values of the given types.
 func bodyNames(types []string) map[string]bool {
@@ -383,8 +421,8 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
+		args.InputType = p.wrapper(args.InputName)
+		args.input = []string{"v " + args.InputType}
 		for i, f := range args.InputFields {
 			args.InputFields[i].InputArg = "v." + f.Name
 		}
@@ -402,7 +440,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
+		args.ReturnType = p.wrapper(args.OutputName)
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
-- 
2.43.0


From a1f668c10fbfc41196ae88629c299d25ca80f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 077/123] fix: a part whose type or element is not declared
 made a client that did not compile, instead of an error

---
 wsdlgen/wsdlgen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 102ad9e..ace8514 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -373,10 +373,8 @@ func exposeType(typ string) string {
 }
 
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
-	if part.Type.Local != "" {
-		return p.code.NameOf(part.Type), nil
-	}
-	if part.Element.Local != "" {
+	name := part.Type
+	if name.Local == "" && part.Element.Local != "" {
 		doc, ok := p.code.DocType(part.Element.Space)
 		if !ok {
 			return "", fmt.Errorf("part %s: could not lookup element %v",
@@ -384,11 +382,19 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 		}
 		for _, el := range doc.Elements {
 			if el.Name == part.Element {
-				return p.code.NameOf(xsd.XMLName(el.Type)), nil
+				name = xsd.XMLName(el.Type)
+				break
 			}
 		}
 	}
-	return "", fmt.Errorf("part %s has no element or type", part.Name)
+	if name.Local == "" {
+		return "", fmt.Errorf("part %s has no element or type", part.Name)
+	}
+	id := p.code.NameOf(name)
+	if id == "NOTFOUND"+name.Local || id == "ERROR"+name.Local {
+		return "", fmt.Errorf("part %s: could not lookup type %v", part.Name, name)
+	}
+	return id, nil
 }
 
 func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output wsdl.Message) (opArgs, error) {
-- 
2.43.0


From 97c01a035f3a8bad97a952d51d993bd49287dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:06 +0000
Subject: [PATCH 078/123] fix: a part of an element that is recorded in the
 namespace of its type was an error

---
 wsdlgen/wsdlgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index ace8514..882a712 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -381,7 +381,9 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 				part.Name, part.Element)
 		}
 		for _, el := range doc.Elements {
-			if el.Name == part.Element {
+			// All are elements of that namespace, even those that
+			// are recorded in the namespace of their type.
+			if el.Name.Local == part.Element.Local {
 				name = xsd.XMLName(el.Type)
 				break
 			}
-- 
2.43.0


From bd19d8751a8355d1a0bec49fef564af3eb3ebe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 079/123] fix: Code.NameOf gave an undeclared identifier for a
 complex type that is replaced by its simple base

---
 xsdgen/xsdgen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 2bbeea0..827995b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -115,6 +115,12 @@ func (c *Code) NameOf(name xml.Name) string {
 	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
+	case *xsd.SimpleType:
+		// A complexType may be "unpacked"
+		if id, ok := c.names[b.Name]; ok {
+			return id
+		}
+		t = b
 	}
 
 	specs, err := c.cfg.genTypeSpec(t)
@@ -127,7 +133,7 @@ func (c *Code) NameOf(name xml.Name) string {
 	for _, s := range specs {
 		c.names[xsd.XMLName(s.xsdType)] = s.name
 	}
-	if s, ok := c.names[name]; ok {
+	if s, ok := c.names[xsd.XMLName(t)]; ok {
 		return s
 	}
 	return "NOTFOUND" + name.Local
-- 
2.43.0


From 2daab53f5231c089239b7ac5358521cf2928c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:22 +0000
Subject: [PATCH 080/123] fix: clients for schemas with a type called Client
 did not compile

---
 wsdlgen/helper.go  | 21 ++++++++++++++-------
 wsdlgen/wsdlgen.go |  9 +++++++--
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 93d36e1..af8d566 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -1,6 +1,10 @@
 package wsdlgen
 
-import "aqwari.net/xml/internal/gen"
+import (
+	"fmt"
+
+	"aqwari.net/xml/internal/gen"
+)
 
 // One of the goals of this package is that generated code
 // has no external dependencies, only the Go standard
@@ -9,14 +13,17 @@ import "aqwari.net/xml/internal/gen"
 // are playing a balancing game here; the larger the static
 // code base grows, the weaker the argument against external
 // dependencies becomes.
+//
+// The names of the two types are filled in, they depend on
+// those of the other types.
 var helpers string = `
-	type Client struct {
+	type %[1]s struct {
 		HTTPClient *http.Client
 		ResponseHook func(*http.Response) *http.Response
 		RequestHook func(*http.Request) *http.Request
 	}
 
-	type soapEnvelope struct {
+	type %[2]s struct {
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
@@ -29,9 +36,9 @@ var helpers string = `
 		}` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Body"` + "`" + `
 	}
 
-	func (c *Client) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
+	func (c *%[1]s) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
 		var body io.Reader
-		var envelope soapEnvelope
+		var envelope %[2]s
 
 		if method == "POST" || method == "PUT" {
 			var buf bytes.Buffer
@@ -76,14 +83,14 @@ var helpers string = `
 			return err
 		}
 		if envelope.Body.Fault != nil {
-			return fmt.Errorf("%s: %s", envelope.Body.Fault.Code, envelope.Body.Fault.String)
+			return fmt.Errorf("%%s: %%s", envelope.Body.Fault.Code, envelope.Body.Fault.String)
 		}
 		return nil
 	}
 `
 
 func (p *printer) addHelpers() {
-	decls, err := gen.Declarations(helpers)
+	decls, err := gen.Declarations(fmt.Sprintf(helpers, p.client, p.envelope))
 	if err != nil {
 		// code does not change at runtime, so
 		// this should never happen
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 882a712..ac44934 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -43,6 +43,8 @@ type printer struct {
 	members map[string]bool
 	// Names of the declared types
 	types map[string]bool
+	// Names of the helper types
+	client, envelope string
 	// Wrapper structs of messages
 	wrappers map[xml.Name]string
 }
@@ -160,7 +162,6 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 }
 
 func (p *printer) genAST() (*ast.File, error) {
-	p.addHelpers()
 	p.types = make(map[string]bool)
 	for _, decl := range p.file.Decls {
 		if decl, ok := decl.(*ast.GenDecl); ok {
@@ -171,6 +172,10 @@ func (p *printer) genAST() (*ast.File, error) {
 			}
 		}
 	}
+	// The schema may declare types of the same names
+	p.client = unique(p.types, "Client")
+	p.envelope = unique(p.types, "soapEnvelope")
+	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
 		if p.portFilter != nil && !p.portFilter(port) {
 			continue
@@ -241,7 +246,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	args := append([]string{"ctx context.Context"}, params.input...)
 	fn := gen.Func(unique(p.members, p.xsdgen.NameOf(op.Name))).
 		Comment(op.Doc).
-		Receiver("c *Client").
+		Receiver("c *"+p.client).
 		Args(args...).
 		BodyTmpl(`
 			var input struct {
-- 
2.43.0


From 1867c4d0052cfd9664857308fba1346a29261f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 081/123] fix: a part of a type that is not generated made a
 client that did not compile, instead of an error

---
 wsdlgen/wsdlgen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index ac44934..eb3fbaa 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -43,6 +43,8 @@ type printer struct {
 	members map[string]bool
 	// Names of the declared types
 	types map[string]bool
+	// Names of the types of the schema
+	declared map[string]bool
 	// Names of the helper types
 	client, envelope string
 	// Wrapper structs of messages
@@ -163,11 +165,13 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 
 func (p *printer) genAST() (*ast.File, error) {
 	p.types = make(map[string]bool)
+	p.declared = make(map[string]bool)
 	for _, decl := range p.file.Decls {
 		if decl, ok := decl.(*ast.GenDecl); ok {
 			for _, spec := range decl.Specs {
 				if spec, ok := spec.(*ast.TypeSpec); ok {
 					p.types[spec.Name.Name] = true
+					p.declared[spec.Name.Name] = true
 				}
 			}
 		}
@@ -398,7 +402,9 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 		return "", fmt.Errorf("part %s has no element or type", part.Name)
 	}
 	id := p.code.NameOf(name)
-	if id == "NOTFOUND"+name.Local || id == "ERROR"+name.Local {
+	// Built-in types are Go types
+	builtin := gotypes.Universe.Lookup(id) != nil || strings.ContainsAny(id, ".[]")
+	if !builtin && !p.declared[id] {
 		return "", fmt.Errorf("part %s: could not lookup type %v", part.Name, name)
 	}
 	return id, nil
-- 
2.43.0


From be3a28007edfb380989b9827a9238fdc85b62872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 082/123] fix: a part of an undeclared type whose name is no
 identifier made a client that did not compile, instead of an error

---
 wsdlgen/wsdlgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index eb3fbaa..5e78bf6 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -403,7 +403,8 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	}
 	id := p.code.NameOf(name)
 	// Built-in types are Go types
-	builtin := gotypes.Universe.Lookup(id) != nil || strings.ContainsAny(id, ".[]")
+	plain := strings.TrimPrefix(id, "[]")
+	builtin := gotypes.Universe.Lookup(plain) != nil || plain == "time.Time" || plain == "xml.Name"
 	if !builtin && !p.declared[id] {
 		return "", fmt.Errorf("part %s: could not lookup type %v", part.Name, name)
 	}
-- 
2.43.0


From 7abc62656fd18ae8bebe84430943c94eedb4453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:58 +0000
Subject: [PATCH 083/123] fix: methods with a parameter called like the wrapper
 struct of the results did not compile

---
 wsdlgen/wsdlgen.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 5e78bf6..8728cda 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -426,6 +426,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		}
 		types = append(types, typ)
 	}
+	if len(input.Parts) > p.maxArgs {
+		args.InputType = p.wrapper(input.Name)
+	}
+	if len(output.Parts) > p.maxReturns {
+		args.ReturnType = p.wrapper(output.Name)
+		types = append(types, args.ReturnType)
+	}
 	vars, fields := bodyNames(types), make(map[string]bool)
 	for i, part := range input.Parts {
 		typ := types[i]
@@ -440,8 +447,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 			InputArg:   vname,
 		})
 	}
-	if len(args.input) > p.maxArgs {
-		args.InputType = p.wrapper(args.InputName)
+	if args.InputType != "" {
 		args.input = []string{"v " + args.InputType}
 		for i, f := range args.InputFields {
 			args.InputFields[i].InputArg = "v." + f.Name
@@ -459,8 +465,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
-	if len(args.output) > p.maxReturns {
-		args.ReturnType = p.wrapper(args.OutputName)
+	if args.ReturnType != "" {
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
-- 
2.43.0


From 4728aeaf2aa0ceac9c154d3281f46f825e6017ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 084/123] fix: attributes and elements without a name became
 embedded fields, which may not compile, instead of an error

---
 xsd/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 641e180..36d2a65 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1153,6 +1153,9 @@ func parseAnyElement(ns string, el *xmltree.Element) Element {
 
 func parseElement(ns string, el *xmltree.Element) Element {
 	var doc annotation
+	if el.Attr("", "name") == "" {
+		stop("element without a name")
+	}
 	declNS, isDeclared := lookupDeclNamespace(el)
 	if isDeclared {
 		ns = declNS
@@ -1185,6 +1188,9 @@ func parseElement(ns string, el *xmltree.Element) Element {
 func parseAttribute(ns string, el *xmltree.Element) Attribute {
 	var a Attribute
 	var doc annotation
+	if el.Attr("", "name") == "" {
+		stop("attribute without a name")
+	}
 	// Non-QName xml attributes explicitly do *not* have a namespace.
 	if name := el.Attr("", "name"); strings.Contains(name, ":") {
 		a.Name = el.Resolve(el.Attr("", "name"))
-- 
2.43.0


From e99f12e261a98467e0cf15235c46690f3086df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 085/123] fix: attributes of complex type became struct fields,
 which may not compile, instead of an error

---
 xsdgen/xsdgen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 827995b..08dbe3e 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -855,6 +855,10 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 	}
 	for _, attr := range attributes {
+		if _, ok := attr.Type.(*xsd.ComplexType); ok {
+			return nil, fmt.Errorf("attribute %s of type %s is of complex type %s",
+				attr.Name.Local, t.Name.Local, xsd.XMLName(attr.Type).Local)
+		}
 		options := ""
 		if attr.Optional {
 			options = ",omitempty"
-- 
2.43.0


From 6d2f0baf051fefd90fce2b0ca2e85b4c849b198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 086/123] fix: undoing AllowType left nothing allowed, or
 disallowed a type that was allowed before

---
 xsdgen/config.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 4d1fbe1..1e069e6 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -204,14 +204,19 @@ func OnlyTypes(patterns ...string) Option {
 // dependent types, will be generated.
 func AllowType(name xml.Name) Option {
 	return func(cfg *Config) Option {
-		if cfg.allowTypes == nil {
-			cfg.allowTypes = make(map[xml.Name]bool)
-		}
-		cfg.allowTypes[name] = true
-		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
-			return AllowType(name)
+		allowed := map[xml.Name]bool{name: true}
+		for name := range cfg.allowTypes {
+			allowed[name] = true
 		}
+		return replaceAllowTypes(allowed)(cfg)
+	}
+}
+
+func replaceAllowTypes(allowed map[xml.Name]bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.allowTypes
+		cfg.allowTypes = allowed
+		return replaceAllowTypes(prev)
 	}
 }
 
-- 
2.43.0


From ca28a8a39f26d196c061c11ec88d60a5581b0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 087/123] fix: a Config used for one schema could not be used
 for one of other namespaces

---
 xsdgen/cli.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 63e040e..37465e2 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -19,17 +19,18 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
@@ -41,7 +42,7 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 		have[schema.TargetNS] = true
 	}
 	var missing []string
-	for _, ns := range cfg.namespaces {
+	for _, ns := range namespaces {
 		if !have[ns] {
 			missing = append(missing, ns)
 		}
-- 
2.43.0


From 4ed843a87d0984a2e2ad4d23d3244512aff209a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:09 +0000
Subject: [PATCH 088/123] fix: a wsdlgen Config that had been used kept the
 default package comment when the package name was changed

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 8728cda..397f5f3 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -110,12 +110,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -147,8 +141,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From dd049a1410beb253d1899bd9b60d5a68f93c78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 089/123] Remove two output files of a check, committed by
 mistake

---
 evidence/C09.json              |  45 ------------
 replay/C09-model-a3415321.json | 121 ---------------------------------
 2 files changed, 166 deletions(-)
 delete mode 100644 evidence/C09.json
 delete mode 100644 replay/C09-model-a3415321.json

diff --git a/evidence/C09.json b/evidence/C09.json
deleted file mode 100644
index 23d7ef6..0000000
--- a/evidence/C09.json
+++ /dev/null
@@ -1,45 +0,0 @@
-{
- "assumptions": [
-  "the Go toolchain and standard library are correct",
-  "generated inputs only: absence of failures is evidence, not proof"
- ],
- "coverage": {
-  "distinct_nontrivial": 4,
-  "evaluations": 14,
-  "facets": [
-   {
-    "facet": "model",
-    "rule": "the schemas declare more than two elements, attributes or derivations",
-    "evaluations": 14,
-    "distinct_nontrivial": 4,
-    "classes": {
-     "1 namespaces": 4,
-     "2 namespaces": 1,
-     "3 namespaces": 1,
-     "derived complex type": 1,
-     "element below a choice": 1,
-     "element of another namespace": 3,
-     "no target namespace": 1,
-     "plural element": 4,
-     "qualified attribute": 1,
-     "simple content": 3,
-     "simple type: list": 1,
-     "simple type: restriction": 4,
-     "simple type: union": 1,
-     "wildcard": 3
-    }
-   }
-  ],
-  "inner_executions": 0,
-  "known_findings_reproduced": 0,
-  "rule": "model: the schemas declare more than two elements, attributes or derivations",
-  "samples": [],
-  "stored_cases_replayed": 0
- },
- "level": "exploration",
- "property": "C09",
- "seed": 1,
- "tier": "quick",
- "violations": 1,
- "wall_s": 8.590400171
-}
diff --git a/replay/C09-model-a3415321.json b/replay/C09-model-a3415321.json
deleted file mode 100644
index df68af9..0000000
--- a/replay/C09-model-a3415321.json
+++ /dev/null
@@ -1,121 +0,0 @@
-{
- "property": "C09",
- "facet": "model",
- "error": "type {http://example.com/b a}: want:  elem {urn:a}b plural=true optional=false nillable=true abstract=false default=\"\" doc=\"\" foreign= type=xs:anyType\n got:  elem {http://example.com/b}b plural=true optional=false nillable=true abstract=false default=\"\" doc=\"\" foreign= type=xs:anyType\n--- document 0\n\u003cschema targetNamespace=\"urn:a\" elementFormDefault=\"qualified\" xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:ns1=\"urn:a\" xmlns:ns2=\"http://example.com/b\" xmlns:_x=\"urn:ext\"\u003e\u003cimport namespace=\"http://example.com/b\"/\u003e\u003ccomplexType name=\"a\"/\u003e\u003celement name=\"b\" nillable=\"1\"\u003e\u003c/element\u003e\u003c/schema\u003e\n--- document 1\n\u003c?xml version=\"1.0\" encoding=\"UTF-8\"?\u003e\n\u003cschema targetNamespace=\"http://example.com/b\" elementFormDefault=\"qualified\" xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:ns1=\"urn:a\" xmlns:ns2=\"http://example.com/b\" xmlns:_x=\"urn:ext\"\u003e\u003cimport namespace=\"urn:a\" schemaLocation=\"s0.xsd\"/\u003e\u003ccomplexType name=\"a\"\u003e\u003csequence\u003e\u003celement ref=\"ns1:b\" maxOccurs=\"unbounded\"\u003e\u003c/element\u003e\u003c/sequence\u003e\u003c/complexType\u003e\u003celement name=\"b\"/\u003e\u003ccomplexType name=\"b\"/\u003e\u003ccomplexType name=\"c\"/\u003e\u003c/schema\u003e\n",
- "case": {
-  "Set": {
-   "Schemas": [
-    {
-     "NS": "urn:a",
-     "Types": [
-      {
-       "Name": "a",
-       "Complex": {
-        "Base": {
-         "Name": {
-          "Space": "",
-          "Local": ""
-         }
-        }
-       }
-      }
-     ],
-     "Elems": [
-      {
-       "Name": "b",
-       "Type": {
-        "Name": {
-         "Space": "",
-         "Local": ""
-        }
-       },
-       "Nillable": true
-      }
-     ]
-    },
-    {
-     "NS": "http://example.com/b",
-     "Types": [
-      {
-       "Name": "b",
-       "Complex": {
-        "Base": {
-         "Name": {
-          "Space": "",
-          "Local": ""
-         }
-        }
-       }
-      },
-      {
-       "Name": "a",
-       "Complex": {
-        "Base": {
-         "Name": {
-          "Space": "",
-          "Local": ""
-         }
-        },
-        "Content": {
-         "Kind": "sequence",
-         "Min": 1,
-         "Max": 1,
-         "Ref": {
-          "Space": "",
-          "Local": ""
-         },
-         "Parts": [
-          {
-           "Kind": "ref",
-           "Min": 1,
-           "Max": -1,
-           "Ref": {
-            "Space": "urn:a",
-            "Local": "b"
-           }
-          }
-         ]
-        }
-       }
-      },
-      {
-       "Name": "c",
-       "Complex": {
-        "Base": {
-         "Name": {
-          "Space": "",
-          "Local": ""
-         }
-        }
-       }
-      }
-     ],
-     "Elems": [
-      {
-       "Name": "b",
-       "Type": {
-        "Name": {
-         "Space": "",
-         "Local": ""
-        }
-       }
-      }
-     ]
-    }
-   ]
-  },
-  "Style": {
-   "Seed": 1,
-   "Default": "xsd",
-   "Prefixes": 3,
-   "Local": false,
-   "Noise": false,
-   "Shuffle": true,
-   "Explicit": false,
-   "Split": false,
-   "Wrap": false,
-   "Reorder": false,
-   "Pretty": false
-  }
- }
-}
-- 
2.43.0


From 403392e77a9ccaf4bdbdbe13e8e9339330b5afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:33 +0000
Subject: [PATCH 090/123] fix: attributes of the same local name in different
 namespaces got the same tag, which encoding/xml refuses

---
 xsdgen/xsdgen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 08dbe3e..5e6e59a 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -854,6 +854,10 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			})
 		}
 	}
+	sameLocal := make(map[string]int)
+	for _, attr := range attributes {
+		sameLocal[attr.Name.Local]++
+	}
 	for _, attr := range attributes {
 		if _, ok := attr.Type.(*xsd.ComplexType); ok {
 			return nil, fmt.Errorf("attribute %s of type %s is of complex type %s",
@@ -863,7 +867,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if attr.Optional {
 			options = ",omitempty"
 		}
-		qualified := false
+		// Only the namespace tells apart attributes of the same local name
+		qualified := sameLocal[attr.Name.Local] > 1 && attr.Name.Space != ""
 		for _, attrAttr := range attr.Attr {
 			if attrAttr.Name.Space == "" && attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {
 				qualified = true
-- 
2.43.0


From 6bee94d250e5abec3f7c157b956a33098d8cb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:50 +0000
Subject: [PATCH 091/123] fix: the built-in list types NMTOKENS, IDREFS and
 ENTITIES were not split into items, and NOTATION was taken for a list

---
 xsdgen/builtin.go |  5 +++--
 xsdgen/config.go  | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..8107646 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -23,7 +23,8 @@ func nonTrivialBuiltin(t xsd.Type) bool {
 	switch b {
 	case xsd.Base64Binary, xsd.HexBinary,
 		xsd.Date, xsd.Time, xsd.DateTime,
-		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth:
+		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth,
+		xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS:
 		return true
 	}
 	return false
@@ -41,7 +42,7 @@ var builtinTbl = []ast.Expr{
 	xsd.NCName:        &ast.Ident{Name: "string"},
 	xsd.NMTOKEN:       &ast.Ident{Name: "string"},
 	xsd.NMTOKENS:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
-	xsd.NOTATION:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
+	xsd.NOTATION:      &ast.Ident{Name: "string"},
 	xsd.Name:          &ast.Ident{Name: "string"},
 	xsd.QName:         &ast.Ident{Name: "xml.Name"},
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
diff --git a/xsdgen/config.go b/xsdgen/config.go
index 1e069e6..80e5ee4 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -679,6 +679,32 @@ func (cfg *Config) addStandardHelpers() {
 		}
 	}
 
+	for _, listType := range []xsd.Builtin{xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS} {
+		name := "xsd" + listType.String()
+		cfg.helperTypes[xsd.XMLName(listType)] = spec{
+			name:    name,
+			expr:    builtinExpr(listType),
+			private: true,
+			xsdType: listType,
+			methods: []*ast.FuncDecl{
+				gen.Func("UnmarshalText").
+					Receiver("x *"+name).
+					Args("text []byte").
+					Returns("error").
+					Body(`
+						*x = strings.Fields(string(text))
+						return nil
+					`).MustDecl(),
+				gen.Func("MarshalText").
+					Receiver("x "+name).
+					Returns("[]byte", "error").
+					Body(`
+						return []byte(strings.Join(x, " ")), nil
+					`).MustDecl(),
+			},
+		}
+	}
+
 	cfg.helperTypes[xsd.XMLName(xsd.HexBinary)] = spec{
 		name:    "xsd" + xsd.HexBinary.String(),
 		expr:    builtinExpr(xsd.HexBinary),
-- 
2.43.0


From 3add8eeb99a600a536b7237ee061cff020722986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:13 +0000
Subject: [PATCH 092/123] fix: optional elements and attributes of binary types
 that were absent were encoded as empty ones

---
 xsdgen/builtin.go | 10 ++++++++++
 xsdgen/xsdgen.go  |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 8107646..8c2208d 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -30,6 +30,16 @@ func nonTrivialBuiltin(t xsd.Type) bool {
 	return false
 }
 
+// Returns true if t is an xsd.Builtin that is mapped to a Go slice.
+func isSlice(t xsd.Type) bool {
+	b, ok := t.(xsd.Builtin)
+	if !ok {
+		return false
+	}
+	_, ok = builtinExpr(b).(*ast.ArrayType)
+	return ok
+}
+
 // The 45 built-in types of the XSD schema
 var builtinTbl = []ast.Expr{
 	xsd.AnyType:       &ast.Ident{Name: "string"},
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 5e6e59a..5c9c100 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -647,6 +647,7 @@ type fieldOverride struct {
 	Type             xsd.Type
 	Tag              string
 	Plural           bool
+	OmitEmpty        bool // leave out a slice without elements
 }
 
 type nameGenerator struct {
@@ -851,6 +852,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				ToType:       typeName,
 				Type:         el.Type,
 				Plural:       el.Plural,
+				OmitEmpty:    options != "" && isSlice(el.Type),
 			})
 		}
 	}
@@ -904,6 +906,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         attr.Type,
+				OmitEmpty:    options != "" && isSlice(attr.Type),
 			})
 		}
 	}
@@ -1030,9 +1033,15 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
 			}
 			{{else -}}
+			{{if .OmitEmpty -}}
+			if len(layout.{{$.Local}}.{{.FieldName}}) > 0 {
+				layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
+			}
+			{{else -}}
 			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Local}}.{{.FieldName}})
 			{{end -}}
 			{{end -}}
+			{{end -}}
 
 			return e.EncodeElement(layout, start)
 		`, data).Decl()
-- 
2.43.0


From 4ec091ae3cc256b0261fbc8b10c1db5da17000e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:14 +0000
Subject: [PATCH 093/123] fix: xs:byte, which is signed, was mapped to the
 unsigned Go type byte

---
 xsdgen/builtin.go |  2 +-
 xsdgen/xsdgen.go  | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 8c2208d..97677b8 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -58,7 +58,7 @@ var builtinTbl = []ast.Expr{
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int8"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 5c9c100..a401b77 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1250,12 +1250,30 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.UnsignedLong, xsd.UnsignedInt, xsd.UnsignedShort, xsd.UnsignedByte, xsd.Byte:
+	case xsd.Byte:
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.Itoa(int(v))))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseInt(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, %s(i))
+				}
+			}
+			return nil
+		`, cfg.exprString(base))
+	case xsd.UnsignedLong, xsd.UnsignedInt, xsd.UnsignedShort, xsd.UnsignedByte:
 		bits := 32
 		switch base {
 		case xsd.UnsignedLong:
 			bits = 64
-		case xsd.UnsignedByte, xsd.Byte:
+		case xsd.UnsignedByte:
 			bits = 8
 		}
 		marshalFn = marshalFn.Body(`
-- 
2.43.0


From d031a3a79c83453f4faa23b20ae50ac711493df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:49 +0000
Subject: [PATCH 094/123] fix: optional elements and attributes of types
 derived from time types were encoded as the year 1 when absent

---
 xsdgen/xsdgen.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a401b77..8629dcd 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1119,6 +1119,31 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 	}
 	s.methods = append(s.methods, unmarshal, marshal)
 
+	// Like their helper types, types derived from time types leave
+	// out the zero time.
+	for _, method := range helper.methods {
+		var fn *gen.Function
+		switch method.Name.Name {
+		case "MarshalXML":
+			fn = gen.Func("MarshalXML").
+				Args("e *xml.Encoder", "start xml.StartElement").
+				Returns("error").
+				Body(`return %s(t).MarshalXML(e, start)`, helper.name)
+		case "MarshalXMLAttr":
+			fn = gen.Func("MarshalXMLAttr").
+				Args("name xml.Name").
+				Returns("xml.Attr", "error").
+				Body(`return %s(t).MarshalXMLAttr(name)`, helper.name)
+		default:
+			continue
+		}
+		decl, err := fn.Receiver("t " + s.name).Decl()
+		if err != nil {
+			return s, err
+		}
+		s.methods = append(s.methods, decl)
+	}
+
 	return s, nil
 }
 
-- 
2.43.0


From 86c162b341fffd122f65b2dcc621418e74631403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 095/123] fix: only the last of several elements of type
 xs:unsignedByte was kept, as encoding/xml takes a []byte for one value

---
 xsdgen/builtin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 97677b8..e31d57f 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -86,7 +86,8 @@ var builtinTbl = []ast.Expr{
 	xsd.String:             &ast.Ident{Name: "string"},
 	xsd.Time:               &ast.Ident{Name: "time.Time"},
 	xsd.Token:              &ast.Ident{Name: "string"},
-	xsd.UnsignedByte:       &ast.Ident{Name: "byte"},
+	// encoding/xml does not treat a []byte as a list of elements.
+	xsd.UnsignedByte:       &ast.Ident{Name: "uint"},
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
-- 
2.43.0


From f896628ca2774795037712f43916cdc2f749d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 096/123] fix: white space around hexBinary and within
 base64Binary values was refused

---
 xsdgen/builtin.go | 8 ++++----
 xsdgen/config.go  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index e31d57f..c31832c 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -87,8 +87,8 @@ var builtinTbl = []ast.Expr{
 	xsd.Time:               &ast.Ident{Name: "time.Time"},
 	xsd.Token:              &ast.Ident{Name: "string"},
 	// encoding/xml does not treat a []byte as a list of elements.
-	xsd.UnsignedByte:       &ast.Ident{Name: "uint"},
-	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
-	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
-	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
+	xsd.UnsignedByte:  &ast.Ident{Name: "uint"},
+	xsd.UnsignedInt:   &ast.Ident{Name: "uint"},
+	xsd.UnsignedLong:  &ast.Ident{Name: "uint64"},
+	xsd.UnsignedShort: &ast.Ident{Name: "uint"},
 }
diff --git a/xsdgen/config.go b/xsdgen/config.go
index 80e5ee4..a926ed5 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -716,7 +716,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = hex.DecodeString(string(text))
+					*b, err = hex.DecodeString(string(bytes.TrimSpace(text)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -742,7 +742,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = base64.StdEncoding.DecodeString(string(text))
+					*b, err = base64.StdEncoding.DecodeString(string(bytes.Join(bytes.Fields(text), nil)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
-- 
2.43.0


From f0070550b9dfffb0eec88ad563a03a585eeccfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 097/123] fix: items of repeated elements that have the zero
 value were lost on encoding when the elements may be absent

---
 xsdgen/xsdgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8629dcd..55d702c 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -804,7 +804,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		if el.Nillable || el.Optional {
+		// encoding/xml would leave out all items that have the zero value
+		if (el.Nillable || el.Optional) && !el.Plural {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
-- 
2.43.0


From acb55c88ae5578022e927e06cc90ab56b7c86d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 098/123] fix: elements and attributes whose names give no
 exported Go identifier got fields that encoding/xml ignores

---
 xsdgen/xsdgen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 55d702c..5f046de 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -671,8 +671,17 @@ func (gen *nameGenerator) unique(name string) ast.Expr {
 	return ast.NewIdent(name)
 }
 
+// field gives the name for a struct field. It must be exported, as
+// encoding/xml ignores other fields.
+func (gen *nameGenerator) field(name string) string {
+	if ast.IsExported(name) {
+		return name
+	}
+	return "X" + name
+}
+
 func (gen *nameGenerator) attribute(base xml.Name) ast.Expr {
-	name := gen.cfg.public(base)
+	name := gen.field(gen.cfg.public(base))
 	if _, ok := gen.taken[name]; !ok {
 		gen.taken[name] = struct{}{}
 		return ast.NewIdent(name)
@@ -681,7 +690,7 @@ func (gen *nameGenerator) attribute(base xml.Name) ast.Expr {
 }
 
 func (gen *nameGenerator) element(base xml.Name) ast.Expr {
-	name := gen.cfg.public(base)
+	name := gen.field(gen.cfg.public(base))
 	if _, ok := gen.taken[name]; !ok {
 		gen.taken[name] = struct{}{}
 		return ast.NewIdent(name)
@@ -740,7 +749,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, namegen.unique(cfg.exprString(b)), expr, gen.String(`xml:",chardata"`))
+			fields = append(fields, namegen.unique(namegen.field(cfg.exprString(b))), expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
-- 
2.43.0


From eb0d8ef7dcc0390ab4b762cdfa92574bdd9e65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 099/123] fix: default values with line breaks ended up as code
 in the generated source

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 5f046de..9610685 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -988,7 +988,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Local}}.{{.FieldName}})
 			{{end -}}
 			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
+			// overlay.{{.FieldName}} = {{printf "%q" .DefaultValue}}
 			{{end -}}
 			{{end}}
 
-- 
2.43.0


From 340abf390f6397cc483687da2ca413470c7413aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 100/123] fix: items of boolean lists that are no booleans were
 read as false

---
 xsdgen/xsdgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 9610685..8067bd8 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1345,8 +1345,10 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 				switch string(v) {
 				case "1", "true":
 					*x = append(*x, true)
-				default:
+				case "0", "false":
 					*x = append(*x, false)
+				default:
+					return fmt.Errorf("invalid boolean %q", v)
 				}
 			}
 			return nil
-- 
2.43.0


From 2685cc6eb715e489368465c0fe29d858969b5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:42 +0000
Subject: [PATCH 101/123] fix: types that are lists of NOTATION were left out
 of the generated source

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8067bd8..53c2183 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1185,7 +1185,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base := base.(xsd.Builtin); base {
-	case xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.NOTATION, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-- 
2.43.0


From 8b819188d1e95dc90cfeb626d94ea613c8e9f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 102/123] fix: SOAP array types with white space around the
 item type were not resolved

---
 xsdgen/config.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a926ed5..aa486dc 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -517,7 +517,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			if (a.Name != xml.Name{wsdl, "arrayType"}) {
 				continue
 			}
-			itemType = v.Resolve(a.Value)
+			itemType = v.Resolve(strings.TrimSpace(a.Value))
 			break
 		}
 		break
@@ -525,7 +525,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 	if itemType.Local == "" {
 		return c
 	}
-	itemType.Local = strings.TrimSpace(itemType.Local)
 	itemType.Local = strings.TrimSuffix(itemType.Local, "[]")
 	if b := s.FindType(itemType); b != nil {
 		c = cfg.overrideWildcardType(c, b)
-- 
2.43.0


From bedf19b93ae497696bc0fcf69d31db7bdab0d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 103/123] fix: SOAP arrays of dates, binary data or lists got
 two sets of methods, and their items the wrong ones

---
 xsdgen/config.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index aa486dc..af713c9 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -775,6 +775,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	var baseType xml.Name
+	var item xsd.Type
 	// the parseSOAPArray pre-processor would have replaced the wildcard
 	// element in the array with the appropriate type.
 	complex, ok := s.xsdType.(*xsd.ComplexType)
@@ -785,6 +786,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	for _, el := range complex.Elements {
 		if el.Wildcard {
 			baseType = xsd.XMLName(el.Type)
+			item = el.Type
 			break
 		}
 	}
@@ -810,6 +812,22 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	}
 
 	itemType := gen.ExprString(slice.Elt)
+	appendItem := "*a = append(*a, item)"
+	outputItems := fmt.Sprintf("output.Items = []%s(a)", itemType)
+	if nonTrivialBuiltin(item) {
+		// Values of these types are read and written
+		// through a helper type, with its own methods
+		h, ok := cfg.helperTypes[item.(xsd.Builtin).Name()]
+		if !ok {
+			cfg.logf("no helper type for items of %s", s.name)
+			return s
+		}
+		appendItem = fmt.Sprintf("*a = append(*a, (%s)(item))", itemType)
+		itemType = h.name
+		outputItems = fmt.Sprintf(`for _, v := range a {
+				output.Items = append(output.Items, %s(v))
+			}`, itemType)
+	}
 	unmarshalFn := gen.Func("UnmarshalXML").
 		Receiver("a *"+s.name).
 		Args("d *xml.Decoder", "start xml.StartElement").
@@ -822,7 +840,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				if tok, ok := tok.(xml.StartElement); ok {
 					var item %s
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						%s
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -830,7 +848,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, itemType)
+		`, itemType, appendItem)
 	} else {
 		unmarshalFn = unmarshalFn.Body(`
 			var tok xml.Token
@@ -844,7 +862,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 						continue
 					}
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						%s
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -852,7 +870,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, xmltag.Space, xmltag.Local, itemType)
+		`, xmltag.Space, xmltag.Local, itemType, appendItem)
 	}
 	unmarshal, err := unmarshalFn.Decl()
 	if err != nil {
@@ -872,21 +890,20 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
 				Items []%[1]s `+"`xml:\"%[2]s %[3]s\"`"+`
 			}
-			output.Items = []%[1]s(a)
+			%[6]s
 			start.Attr = append(start.Attr, xml.Attr {
 				Name: xml.Name{"", "xmlns:ns1"},
 				Value: %[4]q,
 			})
 			output.ArrayType = "ns1:%[5]s[]"
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local).Decl()
+		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local, outputItems).Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
 	}
 
 	s.expr = slice
-	s.methods = append(s.methods, marshal)
-	s.methods = append(s.methods, unmarshal)
+	s.methods = []*ast.FuncDecl{marshal, unmarshal}
 	return s
 }
-- 
2.43.0


From 29006fb63475bd5c66caec55553a545e1ed00dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:29 +0000
Subject: [PATCH 104/123] fix: schemas with a simple and a complex type of one
 name crashed the generator

---
 xsdgen/xsdgen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 53c2183..d54bd11 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -351,7 +351,11 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 	}
 
 	graph.Flatten(func(i int) {
-		c := alltypes[i].(*xsd.ComplexType)
+		c, ok := alltypes[i].(*xsd.ComplexType)
+		if !ok {
+			// Another type has the name of the base type
+			return
+		}
 		b, ok := c.Base.(*xsd.ComplexType)
 		if !ok {
 			return
-- 
2.43.0


From d43d32168175e44d56ccd12926c05d3ad3ebe824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 105/123] fix: SOAP array types derived from array types
 crashed the generator

---
 xsdgen/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index af713c9..a394c7f 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -541,7 +541,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From dae6e3e929c4a955b63b308984875b8d2edf4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 106/123] fix: attributes of SOAP array types declared after
 arrayType were left out

---
 xsdgen/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a394c7f..6e4bcd8 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -520,7 +520,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			itemType = v.Resolve(strings.TrimSpace(a.Value))
 			break
 		}
-		break
 	}
 	if itemType.Local == "" {
 		return c
-- 
2.43.0


From 31076da67e2681c93b4695a2cf7435facd34a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 107/123] fix: responses of services were never decoded, all
 results were zero

---
 wsdlgen/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index af8d566..1eebd00 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -27,7 +27,7 @@ var helpers string = `
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
-			Message interface{}
+			Message interface{} ` + "`xml:\",any\"`" + `
 			Fault *struct {
 				String string ` + "`xml:\"faultstring,omitempty\"`" + `
 				Code string ` + "`xml:\"faultcode,omitempty\"`" + `
-- 
2.43.0


From 96c40a6d36e24dd36e4cabb9263b02641c031122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:53 +0000
Subject: [PATCH 108/123] fix: parts of date, binary and list types were sent
 and read in the formats of their Go types

---
 wsdlgen/wsdlgen.go | 60 ++++++++++++++++++++++++++++++++++------------
 xsdgen/xsdgen.go   | 35 +++++++++++++++++++++++++++
 2 files changed, 80 insertions(+), 15 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 397f5f3..b21e652 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -137,6 +137,22 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 }
 
 func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, error) {
+	// Parts of some built-in types need helper types that
+	// the schema may have no use for.
+	for _, port := range def.Ports {
+		if cfg.portFilter != nil && !cfg.portFilter(port) {
+			continue
+		}
+		for _, op := range port.Operations {
+			for _, msg := range []xml.Name{op.Input, op.Output} {
+				for _, part := range def.Message[msg].Parts {
+					if name, err := partType(code, part); err == nil {
+						code.HelperType(name)
+					}
+				}
+			}
+		}
+	}
 	file, err := code.GenAST()
 	if err != nil {
 		return nil, err
@@ -285,7 +301,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			{{ end -}}
 			return result, err
 			{{- else if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
+			return {{ range .OutputFields }}{{.PublicType}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -371,23 +387,24 @@ func bodyNames(types []string) map[string]bool {
 // on the fly.
 func exposeType(typ string) string {
 	switch typ {
-	case "xsdDate", "xsdTime", "xsdDateTime", "gDay",
-		"gMonth", "gMonthDay", "gYear", "gYearMonth":
+	case "xsdDate", "xsdTime", "xsdDateTime", "xsdGDay",
+		"xsdGMonth", "xsdGMonthDay", "xsdGYear", "xsdGYearMonth":
 		return "time.Time"
-	case "hexBinary", "base64Binary":
+	case "xsdHexBinary", "xsdBase64Binary":
 		return "[]byte"
-	case "idrefs", "nmtokens", "notation", "entities":
+	case "xsdIDREFS", "xsdNMTOKENS", "xsdENTITIES":
 		return "[]string"
 	}
 	return typ
 }
 
-func (p *printer) getPartType(part wsdl.Part) (string, error) {
+// partType gives the name of the schema type of a part.
+func partType(code *xsdgen.Code, part wsdl.Part) (xml.Name, error) {
 	name := part.Type
 	if name.Local == "" && part.Element.Local != "" {
-		doc, ok := p.code.DocType(part.Element.Space)
+		doc, ok := code.DocType(part.Element.Space)
 		if !ok {
-			return "", fmt.Errorf("part %s: could not lookup element %v",
+			return name, fmt.Errorf("part %s: could not lookup element %v",
 				part.Name, part.Element)
 		}
 		for _, el := range doc.Elements {
@@ -400,7 +417,18 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 		}
 	}
 	if name.Local == "" {
-		return "", fmt.Errorf("part %s has no element or type", part.Name)
+		return name, fmt.Errorf("part %s has no element or type", part.Name)
+	}
+	return name, nil
+}
+
+func (p *printer) getPartType(part wsdl.Part) (string, error) {
+	name, err := partType(p.code, part)
+	if err != nil {
+		return "", err
+	}
+	if id, ok := p.code.HelperType(name); ok {
+		return id, nil
 	}
 	id := p.code.NameOf(name)
 	// Built-in types are Go types
@@ -419,22 +447,23 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
-	var types []string
+	var types, used []string
 	for _, part := range append(append([]wsdl.Part(nil), input.Parts...), output.Parts...) {
 		typ, err := p.getPartType(part)
 		if err != nil {
 			return args, err
 		}
 		types = append(types, typ)
+		used = append(used, typ, exposeType(typ))
 	}
 	if len(input.Parts) > p.maxArgs {
 		args.InputType = p.wrapper(input.Name)
 	}
 	if len(output.Parts) > p.maxReturns {
 		args.ReturnType = p.wrapper(output.Name)
-		types = append(types, args.ReturnType)
+		used = append(used, args.ReturnType)
 	}
-	vars, fields := bodyNames(types), make(map[string]bool)
+	vars, fields := bodyNames(used), make(map[string]bool)
 	for i, part := range input.Parts {
 		typ := types[i]
 		inputType := exposeType(typ)
@@ -461,9 +490,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    identifier(fields, strings.Title(part.Name)),
-			Type:    typ,
-			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
+			Name:       identifier(fields, strings.Title(part.Name)),
+			Type:       typ,
+			PublicType: outputType,
+			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if args.ReturnType != "" {
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index d54bd11..0e6061b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -271,6 +271,41 @@ func (cfg *Config) typeName(name xml.Name) string {
 	return cfg.public(name)
 }
 
+// HelperType returns the name of the type that values of a type are to be
+// converted to when they are marshalled or unmarshalled, and declares that
+// type. It returns false for types that need no conversion.
+func (code *Code) HelperType(name xml.Name) (string, bool) {
+	var t xsd.Type
+	if b, err := xsd.ParseBuiltin(name); err == nil {
+		t = b
+	} else if _, ok := code.names[name]; ok {
+		return "", false
+	} else if t, ok = code.types[name]; ok {
+		t = code.cfg.flatten1(t, func(xsd.Type) {}, 0)
+	}
+	if !nonTrivialBuiltin(t) {
+		return "", false
+	}
+	for id, s := range code.decls {
+		if s.private && s.xsdType == t {
+			return id, true
+		}
+	}
+	h, ok := code.cfg.helperTypes[xsd.XMLName(t)]
+	if !ok {
+		return "", false
+	}
+	for _, dep := range h.helperFuncs {
+		if fn, ok := code.cfg.helperFuncs[dep]; ok {
+			h.methods = append(h.methods, fn)
+			delete(code.cfg.helperFuncs, dep)
+		}
+	}
+	code.decls[h.name] = h
+	delete(code.cfg.helperTypes, xsd.XMLName(t))
+	return h.name, true
+}
+
 // GenAST generates a Go abstract syntax tree with
 // the type declarations contained in the xml schema document.
 func (code *Code) GenAST() (*ast.File, error) {
-- 
2.43.0


From acfaf534d33255cde2c7697adbfcf15507c7a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:27 +0000
Subject: [PATCH 109/123] fix: parts whose names have no upper case letter were
 neither sent nor read

---
 wsdlgen/wsdlgen.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index b21e652..5800cf5 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -344,6 +344,16 @@ func identifier(taken map[string]bool, name string) string {
 	return name
 }
 
+// fieldName gives the name of the struct field for a part. It must be
+// exported, as encoding/xml ignores other fields.
+func fieldName(taken map[string]bool, name string) string {
+	name = identifier(make(map[string]bool), strings.Title(name))
+	if !ast.IsExported(name) {
+		name = "X" + name
+	}
+	return identifier(taken, name)
+}
+
 // wrapper gives the name of the wrapper struct for a message. Different
 // operations may use the same message.
 func (p *printer) wrapper(message xml.Name) string {
@@ -470,7 +480,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		vname := identifier(vars, part.Name)
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       identifier(fields, strings.Title(part.Name)),
+			Name:       fieldName(fields, part.Name),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
@@ -490,7 +500,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:       identifier(fields, strings.Title(part.Name)),
+			Name:       fieldName(fields, part.Name),
 			Type:       typ,
 			PublicType: outputType,
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
-- 
2.43.0


From 618737742b9197c454c97190e1d19ca8e85797af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 110/123] fix: calls of operations with a part named XMLName
 failed

---
 wsdlgen/wsdlgen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 5800cf5..896bc1a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -345,8 +345,10 @@ func identifier(taken map[string]bool, name string) string {
 }
 
 // fieldName gives the name of the struct field for a part. It must be
-// exported, as encoding/xml ignores other fields.
+// exported, as encoding/xml ignores other fields, and not be XMLName, which
+// means the name of the element.
 func fieldName(taken map[string]bool, name string) string {
+	taken["XMLName"] = true
 	name = identifier(make(map[string]bool), strings.Title(name))
 	if !ast.IsExported(name) {
 		name = "X" + name
-- 
2.43.0


From d413ae4e3e018d13ade15c7859a7be7fa76ff44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:12 +0000
Subject: [PATCH 111/123] fix: a list of documents passed as part of a longer
 slice had its following elements overwritten

---
 xsd/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 36d2a65..d7cc589 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -103,7 +103,7 @@ func hideAnnotations(root *xmltree.Element) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0


From 47ca769883599d2541ce0b91ba6eac658191cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:57 +0000
Subject: [PATCH 112/123] fix: a message part without a name made client code
 that does not compile

---
 wsdlgen/wsdlgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 896bc1a..6a79a8c 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -337,7 +337,7 @@ func identifier(taken map[string]bool, name string) string {
 	if strings.IndexFunc(name, unicode.IsDigit) == 0 {
 		name = "N" + name
 	}
-	for taken[name] || name == "_" {
+	for taken[name] || name == "" || name == "_" {
 		name += "_"
 	}
 	taken[name] = true
-- 
2.43.0


From 0fb2010e371f73de25d4467a88085d4173a7910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:52 +0000
Subject: [PATCH 113/123] fix: a declaration that had nothing but references to
 empty groups kept the references in its content, and was marshalled with them

---
 xsd/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index d7cc589..6c3fecf 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -691,6 +691,7 @@ func unpackGroupsIn(el *xmltree.Element) {
 			children = append(children, seq)
 		}
 	}
+	el.Content = nil
 	el.Children = children
 }
 
-- 
2.43.0


From bd3e24f726cf13fcc8961b49f343eb2b329a0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:41 +0000
Subject: [PATCH 114/123] fix: xsdparse -ns printed the schemas of all other
 namespaces, too

---
 cmd/xsdparse/xsdparse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/xsdparse/xsdparse.go b/cmd/xsdparse/xsdparse.go
index 557adfa..ced1ff2 100644
--- a/cmd/xsdparse/xsdparse.go
+++ b/cmd/xsdparse/xsdparse.go
@@ -51,8 +51,10 @@ func main() {
 	selected := make([]*xmltree.Element, 0, len(norm))
 	for _, root := range norm {
 		tns := root.Attr("", "targetNamespace")
-		if *TargetNS != "" && *TargetNS == tns {
-			selected = append(selected, root)
+		if *TargetNS != "" {
+			if *TargetNS == tns {
+				selected = append(selected, root)
+			}
 		} else if _, ok := filterSchema[tns]; !ok {
 			selected = append(selected, root)
 		}
-- 
2.43.0


From 36f69bd0de12daa67f7fc358484726b201cb8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 115/123] fix: an attribute with a prefix whose local name is
 xmlns was taken for a declaration of the default namespace

---
 xmltree/compare.go | 4 ++--
 xmltree/xmltree.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index f011878..10d1410 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -69,14 +69,14 @@ func equalElement(a, b *Element) bool {
 func equalAttr(a, b *Element) bool {
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if a.Name.Space == "xmlns" || (a.Name == xml.Name{"", "xmlns"}) {
 			continue
 		}
 		attrs[a.Name] = a.Value
 	}
 
 	for _, a := range b.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if a.Name.Space == "xmlns" || (a.Name == xml.Name{"", "xmlns"}) {
 			continue
 		}
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index ac51a3d..501b615 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -184,7 +184,7 @@ func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	for _, attr := range tag.Attr {
 		if attr.Name.Space == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, attr.Name.Local})
-		} else if attr.Name.Local == "xmlns" {
+		} else if (attr.Name == xml.Name{"", "xmlns"}) {
 			ns = append(ns, xml.Name{attr.Value, ""})
 		} else {
 			newAttrs = append(newAttrs, attr)
-- 
2.43.0


From e0a158f34f9c2664a7dc72ebddfa7953474c6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:48 +0000
Subject: [PATCH 116/123] fix: appending to the content of a leaf overwrote the
 content of the elements after it

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 501b615..6ca13bb 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -294,7 +294,7 @@ walk:
 			if tok.Name != el.Name {
 				return fmt.Errorf("Expecting </%s>, got </%s>", el.Prefix(el.Name), el.Prefix(tok.Name))
 			}
-			el.Content = data[int(begin):int(end)]
+			el.Content = data[int(begin):int(end):int(end)]
 			break walk
 		}
 		end = scanner.InputOffset()
-- 
2.43.0


From b6647288145b98e17206427f872940c41b85be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:31 +0000
Subject: [PATCH 117/123] fix: a restriction of simple content that narrows the
 content with an anonymous type lost its base type, and with it the attributes

---
 xsd/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6c3fecf..512d5b0 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -466,7 +466,11 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int, used map[xml.Na
 			if accum {
 				ref = el.Attr("", updateAttr) + " " + ref
 			}
-			el.SetAttr("", updateAttr, ref)
+			// A restriction of simple content has a base type and, maybe,
+			// an anonymous type that its content is restricted to.
+			if updateAttr != "base" || el.Attr("", "base") == "" {
+				el.SetAttr("", updateAttr, ref)
+			}
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
 			types = append(types, t)
-- 
2.43.0


From 862994e0d89913c3f2ec4c8b9fb0b72f678949b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:42 +0000
Subject: [PATCH 118/123] fix: a prohibited attribute was recorded as one that
 the type has

---
 xsd/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 512d5b0..87c39cc 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -947,6 +947,10 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 		case "restriction":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			for _, v := range el.Search(schemaNS, "attribute") {
+				if v.Attr("", "use") == "prohibited" {
+					// says that there is no such attribute
+					continue
+				}
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 			}
 		}
@@ -985,6 +989,10 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 			}
 
 			for _, v := range el.Search(schemaNS, "attribute") {
+				if v.Attr("", "use") == "prohibited" {
+					// says that there is no such attribute
+					continue
+				}
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 			}
 		case "annotation":
-- 
2.43.0


From edc4d6bd92860be0003720473ffb475da421a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:39 +0000
Subject: [PATCH 119/123] fix: an element, wildcard or group that may not occur
 at all (maxOccurs of zero) was recorded as an optional one

---
 xsd/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 87c39cc..093351a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1035,10 +1035,14 @@ func parseParticles(ns string, root *xmltree.Element) []particle {
 			return
 		}
 		min, max := parseOccurs(el)
+		if max == 0 {
+			// may not occur at all
+			return
+		}
 	Found:
 		for _, p := range found {
 			p.min *= min
-			if p.max < 0 && max != 0 || max < 0 && p.max != 0 {
+			if p.max < 0 || max < 0 {
 				p.max = -1
 			} else {
 				p.max *= max
-- 
2.43.0


From 587809fc1fe3cbf681cc80f8f6aa4e237d594ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:09 +0000
Subject: [PATCH 120/123] fix: the schema of the XML Schema namespace was
 without unsignedShort and anySimpleType

---
 xsd/standard-schema.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..c602a35 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1416,8 +1416,10 @@ var builtinSchema = Schema{
 }
 
 func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
-		builtinSchema.Types[i.Name()] = i
+	builtinSchema.Types = make(map[xml.Name]Type, int(AnySimpleType))
+	for i := AnyType; i <= AnySimpleType; i++ {
+		if i.Name().Space == schemaNS {
+			builtinSchema.Types[i.Name()] = i
+		}
 	}
 }
-- 
2.43.0


From 56a6ac505842dd3ba3cdaffc86b39bcce843b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:09 +0000
Subject: [PATCH 121/123] fix: attributeFormDefault was ignored: local
 attributes of a schema that makes them qualified by default were taken for
 unqualified ones

---
 xsd/parse.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 093351a..b1ed4ef 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -119,6 +119,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		}
 	}
 	for _, root := range result {
+		attributeDefaultForm(root)
 		attributeDefaultType(root)
 		elementDefaultType(root)
 	}
@@ -837,6 +838,31 @@ func attributeDefaultType(root *xmltree.Element) {
 	}
 }
 
+// 3.2.2 XML Representation of Attribute Declaration Schema Components
+//
+// Specifies that local attributes take their form from the
+// attributeFormDefault attribute of the schema.
+//
+// http://www.w3.org/TR/xmlschema-1/#cAttribute_Declarations
+func attributeDefaultForm(root *xmltree.Element) {
+	var (
+		isAttr    = isElem(schemaNS, "attribute")
+		hasNoForm = hasAttrValue("", "form", "")
+		hasNoRef  = hasAttrValue("", "ref", "")
+	)
+	if root.Attr("", "attributeFormDefault") != "qualified" {
+		return
+	}
+	for i := range root.Children {
+		for _, el := range root.Children[i].SearchFunc(and(isAttr, hasNoForm, hasNoRef)) {
+			// Not declared here, but by a global declaration
+			if _, ok := lookupDeclNamespace(el); !ok {
+				el.SetAttr("", "form", "qualified")
+			}
+		}
+	}
+}
+
 // 3.3.2 XML Representation of Element Declaration Schema Components
 //
 // Elements types default to anyType
-- 
2.43.0


From 4593ab38f4393c47f564efbfdcb4aeead6a579e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:09 +0000
Subject: [PATCH 122/123] fix: a line of documentation longer than 64 kB, and
 those after it, were missing from the comment of its type

---
 internal/gen/gen.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..7d9a8a7 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -5,7 +5,6 @@
 package gen // import "aqwari.net/xml/internal/gen"
 
 import (
-	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -215,10 +214,12 @@ func PackageDoc(file *ast.File, comments ...string) *ast.File {
 func CommentGroup(comments ...string) *ast.CommentGroup {
 	var group ast.CommentGroup
 	for _, v := range comments {
-		line := bufio.NewScanner(strings.NewReader(v))
-		for line.Scan() {
+		if v == "" {
+			continue
+		}
+		for _, line := range strings.Split(strings.TrimSuffix(v, "\n"), "\n") {
 			group.List = append(group.List, &ast.Comment{
-				Text: "// " + strings.TrimSpace(line.Text()),
+				Text: "// " + strings.TrimSpace(line),
 			})
 		}
 	}
-- 
2.43.0


From e494e7a9159ffa2cbafc58cef039049070057731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:29 +0000
Subject: [PATCH 123/123] fix: the documentation of an operation was printed on
 the last line of the type declared before the method, and was no comment of
 the method

---
 wsdlgen/wsdlgen.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 6a79a8c..2020224 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -238,31 +238,23 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 
 	if params.InputType != "" && !p.types[params.InputType] {
 		p.types[params.InputType] = true
-		decls, err := gen.Snippets(params, `
-			type {{.InputType}} struct {
-			{{ range .InputFields -}}
-				{{.Name}} {{.PublicType}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		var fields []string
+		for _, f := range params.InputFields {
+			fields = append(fields, f.Name+" "+f.PublicType)
+		}
+		if err := p.structType(params.InputType, fields); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	if params.ReturnType != "" && !p.types[params.ReturnType] {
 		p.types[params.ReturnType] = true
-		decls, err := gen.Snippets(params, `
-			type {{.ReturnType}} struct {
-			{{ range .ReturnFields -}}
-				{{.Name}} {{.Type}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		var fields []string
+		for _, f := range params.ReturnFields {
+			fields = append(fields, f.Name+" "+f.Type)
+		}
+		if err := p.structType(params.ReturnType, fields); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	args := append([]string{"ctx context.Context"}, params.input...)
 	fn := gen.Func(unique(p.members, p.xsdgen.NameOf(op.Name))).
@@ -394,6 +386,19 @@ func bodyNames(types []string) map[string]bool {
 	return names
 }
 
+// structType declares a struct type. The declaration has no positions,
+// so that it does not end on the line that a comment of the declaration
+// after it is printed on.
+func (p *printer) structType(name string, fields []string) error {
+	list, err := gen.FieldList(fields...)
+	if err != nil {
+		return err
+	}
+	p.file.Decls = append(p.file.Decls, gen.TypeDecl(
+		ast.NewIdent(name), &ast.StructType{Fields: list}))
+	return nil
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
-- 
2.43.0

