From 2faacb60dc8073ab3131a3f159181c3f0075e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 01/26] fix: keep using the live node after inline content
 grows the node stack

---
 node.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..3ade565 100644
--- a/node.go
+++ b/node.go
@@ -142,7 +142,12 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
+	if err != nil {
+		return err
+	}
 	if w.Indenter != nil {
+		// writing the node's content may have grown w.nodes and moved this node
+		n = &w.nodes[w.current]
 		w.last = Event{n.state, n.kind, n.children}
 	}
 	return err
@@ -156,6 +161,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// writing the node's content may have grown w.nodes and moved this node
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 76326ec7e6e2cf9df0299e1847aada0d5f19bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 02/26] fix: report errors raised while opening the parent of a
 written node

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 3baf2840f9e4c59e39334746b4868f7d3f2736ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 03/26] fix: report sink errors from WriteText

---
 printer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/printer.go b/printer.go
index cca62d5..a1374e3 100644
--- a/printer.go
+++ b/printer.go
@@ -84,7 +84,7 @@ func (p printer) EscapeAttrString(s string) error {
 		}
 	}
 	p.WriteString(s)
-	return nil
+	return p.cachedWriteError()
 
 slow:
 	var esc []byte
@@ -123,7 +123,7 @@ slow:
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) EscapeString(s string) error {
@@ -155,7 +155,7 @@ func (p printer) EscapeString(s string) error {
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) writeExternalID(publicID string, systemID string, enforce bool) error {
-- 
2.43.0


From c4395e76c429a06a9874182d0e6a636a248b5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 04/26] fix: strict CheckChars excludes the discouraged
 characters

---
 check.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..03edc15 100644
--- a/check.go
+++ b/check.go
@@ -56,12 +56,6 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
-			(rn >= 0x20 && rn <= 0xD7FF) ||
-			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
 		if strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
@@ -76,9 +70,15 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				return fmt.Errorf("xmlwriter: discouraged chars at position %d: %c", i, rn)
 			}
 		}
+		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+			(rn >= 0x20 && rn <= 0xD7FF) ||
+			(rn >= 0xE000 && rn <= 0xFFFD) ||
+			(rn >= 0x10000 && rn <= 0x10FFFF) {
+			continue
+		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
 	return nil
-- 
2.43.0


From 1b60caa56579ffc75658084d909fce84a1921f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 05/26] fix: CheckChars rejects invalid UTF-8

---
 check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/check.go b/check.go
index 03edc15..75de16f 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -56,6 +57,11 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
+		if rn == utf8.RuneError {
+			if _, width := utf8.DecodeRuneInString(chars[i:]); width == 1 {
+				return fmt.Errorf("xmlwriter: invalid UTF-8 at position %d", i)
+			}
+		}
 		if strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
-- 
2.43.0


From fb623c74444c4fbb93a3fce32aa611e54c2319ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 06/26] fix: validate the public ID of a notation without a
 system ID

---
 printer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/printer.go b/printer.go
index a1374e3..4f0c307 100644
--- a/printer.go
+++ b/printer.go
@@ -172,9 +172,6 @@ func (p printer) writeExternalID(publicID string, systemID string, enforce bool)
 			if systemID == "" {
 				return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
 			}
-			if err := CheckPubID(publicID); err != nil {
-				return err
-			}
 		}
 		return p.writePublicID(publicID, systemID, enforce)
 	}
@@ -227,8 +224,8 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
-			return fmt.Errorf("xmlwriter: public ID must not be empty")
+		if err := CheckPubID(publicID); err != nil {
+			return err
 		}
 	}
 	p.WriteString("PUBLIC ")
-- 
2.43.0


From b872e49c75573c557a8b0cf060824291dbf40768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 07/26] fix: reject empty attribute names when enforcing

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..88a7bcc 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attribute name must not be empty")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From cd569bb32d5a6a672dad796b5566f4e81dd9c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 08/26] fix: reject attributes written after the start tag was
 closed

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 88a7bcc..b393de0 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attribute %q written after the start tag was closed", a.Name)
+		}
 		if a.Name == "" {
 			return fmt.Errorf("xmlwriter: attribute name must not be empty")
 		}
-- 
2.43.0


From d3803ce2a08be234584078bc2e2d4681ea13aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 09/26] fix: declare the default namespace for attributes with
 a URI but no prefix

---
 elem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elem.go b/elem.go
index eba5eb7..c26a8db 100644
--- a/elem.go
+++ b/elem.go
@@ -100,7 +100,11 @@ func (e Elem) opened(n *node, w *Writer, prev NodeState) error {
 	if len(e.namespaces) > 0 {
 		for i, ns := range e.namespaces {
 			if ns.written == false {
-				if err := w.printer.printAttr("xmlns:"+ns.prefix, ns.uri, w.Enforce); err != nil {
+				name := "xmlns"
+				if ns.prefix != "" {
+					name += ":" + ns.prefix
+				}
+				if err := w.printer.printAttr(name, ns.uri, w.Enforce); err != nil {
 					return err
 				}
 				n.elem.namespaces[i].written = true
-- 
2.43.0


From 945b81150cc19107b2ef7dec45161def42350dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 10/26] fix: reject comments ending in '-' and '--' split over
 several writes

---
 node.go  | 3 +++
 nodes.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/node.go b/node.go
index 3ade565..0a51756 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,9 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// the content written so far to a comment ends with '-'
+	dash bool
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..6cb186d 100644
--- a/nodes.go
+++ b/nodes.go
@@ -70,6 +70,9 @@ func (c CommentContent) write(w *Writer) error {
 		if strings.Index(s, "--") >= 0 {
 			return fmt.Errorf("xmlwriter: comment may not contain '--'")
 		}
+		if w.current >= 0 && w.nodes[w.current].dash && strings.HasPrefix(s, "-") {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
 		if err := CheckChars(s, w.StrictChars); err != nil {
 			return err
 		}
@@ -81,6 +84,9 @@ func (c CommentContent) write(w *Writer) error {
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
+	if w.current >= 0 && s != "" {
+		w.nodes[w.current].dash = strings.HasSuffix(s, "-")
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, CommentContentNode, 0}
 	}
@@ -133,6 +139,9 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && n.dash {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
-- 
2.43.0


From 4182709ca4e8ec244c788072ab619d8a0c9caccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 11/26] fix: reject ']]>' split over several cdata writes

---
 node.go  |  3 +++
 nodes.go | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/node.go b/node.go
index 0a51756..ea4fa32 100644
--- a/node.go
+++ b/node.go
@@ -67,6 +67,9 @@ type node struct {
 	// the content written so far to a comment ends with '-'
 	dash bool
 
+	// number of ']' (at most 2) that end the content written so far to a cdata
+	brackets int
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
diff --git a/nodes.go b/nodes.go
index 6cb186d..3aeaf97 100644
--- a/nodes.go
+++ b/nodes.go
@@ -162,6 +162,13 @@ func (c CDataContent) write(w *Writer) error {
 		if strings.Index(s, "]]>") >= 0 {
 			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
 		}
+		if w.current >= 0 {
+			// the sequence may also be split over several writes
+			n := w.nodes[w.current].brackets
+			if (n >= 1 && strings.HasPrefix(s, "]>")) || (n >= 2 && strings.HasPrefix(s, ">")) {
+				return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+			}
+		}
 		if err := CheckChars(s, w.StrictChars); err != nil {
 			return err
 		}
@@ -173,12 +180,29 @@ func (c CDataContent) write(w *Writer) error {
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		n.brackets = trailingBrackets(n.brackets, s)
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, CDataContentNode, 0}
 	}
 	return nil
 }
 
+// trailingBrackets returns how many ']' (at most 2) end the content of a cdata
+// that ended with prev of them before s was appended to it.
+func trailingBrackets(prev int, s string) int {
+	cnt := len(s) - len(strings.TrimRight(s, "]"))
+	if cnt == len(s) {
+		cnt += prev
+	}
+	if cnt > 2 {
+		cnt = 2
+	}
+	return cnt
+}
+
 // CData represents an XML CData section which can be written or
 // started by the Writer.
 type CData struct {
-- 
2.43.0


From 29306453c7531a5a78035f15ff39269d68be1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 12/26] fix: check the characters of processing instructions

---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index 3aeaf97..f55b10a 100644
--- a/nodes.go
+++ b/nodes.go
@@ -404,6 +404,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From 0f796ac99e305a6445bf7accdf91d65d7bf9e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 13/26] fix: check the characters of system literals and entity
 values

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index 4f0c307..a7071f9 100644
--- a/printer.go
+++ b/printer.go
@@ -188,6 +188,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 	}
 	var qc byte = '"'
 	if dq >= 0 {
@@ -214,6 +217,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 	}
 
 	p.WriteByte(qc)
-- 
2.43.0


From fc00ba3a4b6e3a7e697bd4265c736737ce616c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 14/26] fix: a rejected EndElemFull does not affect how the
 element is closed

---
 writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ee6037e..cafcf9e 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,17 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	if w.current < 0 {
+		return w.End(ElemNode, name...)
 	}
-	return w.End(ElemNode, name...)
+	cur := w.current
+	full := w.nodes[cur].elem.Full
+	w.nodes[cur].elem.Full = true
+	if err := w.End(ElemNode, name...); err != nil {
+		w.nodes[cur].elem.Full = full
+		return err
+	}
+	return nil
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From 2f7cb1a82d31dba65c7e1dd3a7f94224d82c6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 15/26] fix: escape carriage returns in text so that they
 survive parsing

---
 printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer.go b/printer.go
index a7071f9..94d3fcd 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,9 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			// parsers turn a literal carriage return into a newline
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From 26cce2024450cb03890e6042f635195ebb35c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 16/26] fix: ErrCollector.Do keeps the first error over several
 calls

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From 2a5c70292d5f7a5f4dca085e6a3cc8c098669e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 17/26] fix: NodeKind.Name handles negative kinds and
 processing instructions

---
 nodekind.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 113b680514301596a1e5427bd151e2b7544c9460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 18/26] fix: StandardIndenter does not panic when a node is
 ended again after an error

---
 indenter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indenter.go b/indenter.go
index af51eb4..4dd74ce 100644
--- a/indenter.go
+++ b/indenter.go
@@ -80,7 +80,8 @@ func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 		if next.State == StateOpened {
 			s.stack = append(s.stack, indentLevel{e: last})
 			s.depth++
-		} else if next.State == StateEnded {
+		} else if next.State == StateEnded && s.depth > 0 {
+			// depth may already be 0 if a node is ended again after its end failed
 			isInline = s.stack[s.depth].indents == 0
 			s.depth--
 			s.stack = s.stack[:len(s.stack)-1]
-- 
2.43.0


From cabd86b66cdb6fc172d1f7d40d0d31e1bbacb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 19/26] fix: the seam between inline and written comment or
 cdata content is checked

---
 nodes.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/nodes.go b/nodes.go
index f55b10a..0f221b0 100644
--- a/nodes.go
+++ b/nodes.go
@@ -81,6 +81,10 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.Enforce && w.current >= 0 && w.nodes[w.current].dash && strings.HasPrefix(s, "-") {
+		// the comment's own Content has only just been written
+		return fmt.Errorf("xmlwriter: comment may not contain '--'")
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -162,12 +166,9 @@ func (c CDataContent) write(w *Writer) error {
 		if strings.Index(s, "]]>") >= 0 {
 			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
 		}
-		if w.current >= 0 {
-			// the sequence may also be split over several writes
-			n := w.nodes[w.current].brackets
-			if (n >= 1 && strings.HasPrefix(s, "]>")) || (n >= 2 && strings.HasPrefix(s, ">")) {
-				return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
-			}
+		// the sequence may also be split over several writes
+		if w.current >= 0 && closesCData(w.nodes[w.current].brackets, s) {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
 		}
 		if err := CheckChars(s, w.StrictChars); err != nil {
 			return err
@@ -177,6 +178,10 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.Enforce && w.current >= 0 && closesCData(w.nodes[w.current].brackets, s) {
+		// the section's own Content has only just been written
+		return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -190,6 +195,11 @@ func (c CDataContent) write(w *Writer) error {
 	return nil
 }
 
+// closesCData reports whether s, written after n brackets, completes a ']]>'.
+func closesCData(n int, s string) bool {
+	return (n >= 1 && strings.HasPrefix(s, "]>")) || (n >= 2 && strings.HasPrefix(s, ">"))
+}
+
 // trailingBrackets returns how many ']' (at most 2) end the content of a cdata
 // that ended with prev of them before s was appended to it.
 func trailingBrackets(prev int, s string) int {
-- 
2.43.0


From a96ec2df5350d4fcc9c99dbb67cdde432f2c5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 20/26] fix: indenters are told the event before an element's
 inline content correctly

---
 node.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/node.go b/node.go
index ea4fa32..f4b7771 100644
--- a/node.go
+++ b/node.go
@@ -129,6 +129,8 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// the node's content, if any is written below, comes after this event
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -148,14 +150,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if err != nil {
-		return err
-	}
-	if w.Indenter != nil {
-		// writing the node's content may have grown w.nodes and moved this node
-		n = &w.nodes[w.current]
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From 76cf7f3ef182091f44accf23961f6ac06f924299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 21/26] fix: CheckName accepts all name characters of the Basic
 Multilingual Plane

---
 check.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/check.go b/check.go
index 75de16f..dcff744 100644
--- a/check.go
+++ b/check.go
@@ -33,7 +33,7 @@ func CheckName(name string) error {
 	var rn rune
 	for start, rn = range name {
 		if start == 0 {
-			if rn > 0xFFFF || nameChar[uint16(rn)] != 1 {
+			if nameClass(name, rn) != 1 {
 				return fmt.Errorf("xmlwriter: invalid name at position %d: %c", 0, rn)
 			}
 
@@ -43,7 +43,7 @@ func CheckName(name string) error {
 	}
 
 	for i, rn := range name[start:] {
-		if rn > 0xFFFF || nameChar[uint16(rn)] == 0 {
+		if nameClass(name[start+i:], rn) == 0 {
 			return fmt.Errorf("xmlwriter: invalid name at position %d: %c", start+i, rn)
 		}
 	}
@@ -51,6 +51,30 @@ func CheckName(name string) error {
 	return nil
 }
 
+// nameClass returns 1 if rn, the first rune in s, is a NameStartChar, 2 if it
+// is some other NameChar, and 0 if it is neither. The nameChar table ends with
+// U+2040; the larger blocks, which are all NameStartChars, are not in it.
+func nameClass(s string, rn rune) int8 {
+	if rn > 0xFFFF {
+		return 0
+	}
+	if class := nameChar[uint16(rn)]; class != 0 || rn < 0x37F {
+		return class
+	}
+	if (rn >= 0x37F && rn <= 0x1FFF) || (rn >= 0x200C && rn <= 0x200D) ||
+		(rn >= 0x2070 && rn <= 0x218F) || (rn >= 0x2C00 && rn <= 0x2FEF) ||
+		(rn >= 0x3001 && rn <= 0xD7FF) || (rn >= 0xF900 && rn <= 0xFDCF) ||
+		(rn >= 0xFDF0 && rn <= 0xFFFD) {
+		if rn == utf8.RuneError {
+			if _, width := utf8.DecodeRuneInString(s); width == 1 {
+				return 0
+			}
+		}
+		return 1
+	}
+	return 0
+}
+
 // CheckChars ensures a string contains characters which are valid in a Text{}
 // node: https://www.w3.org/TR/xml/#NT-Char
 // The 'strict' argument (which xmlwriter should activate by default) ensures
-- 
2.43.0


From 572ed2c916ef238ec40921a61c039f354229b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:54 +0000
Subject: [PATCH 22/26] fix: gotester reads every boolean parameter alike and
 refuses invalid ones

---
 tester/gotester/xwrunner.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index 6a29cb3..5e4dbfe 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -82,6 +82,18 @@ func (c Command) CleanContent() string {
 	return r
 }
 
+// parseBool reads a boolean parameter.
+func parseBool(v string) (bool, error) {
+	switch strings.ToLower(v) {
+	case "yes", "true":
+		return true, nil
+	case "no", "false":
+		return false, nil
+	default:
+		return false, fmt.Errorf("invalid boolean value")
+	}
+}
+
 // XWRunner is an xwrunner.
 type XWRunner struct {
 	writer  io.Writer
@@ -175,7 +187,10 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 				// TODO: validate
 				attr.Type = xw.DTDAttrType(p.Value)
 			case "required":
-				required = strings.ToLower(p.Value) == "true"
+				var err error
+				if required, err = parseBool(p.Value); err != nil {
+					return err
+				}
 			default:
 				return NewErrUnknownParam(command, p.Name.Local)
 			}
@@ -214,7 +229,10 @@ var writers = map[string]func(r *XWRunner, command Command) error{
 		for _, p := range command.Params {
 			switch p.Name.Local {
 			case "is-pe":
-				entity.IsPE = strings.ToLower(p.Value) == "true"
+				var err error
+				if entity.IsPE, err = parseBool(p.Value); err != nil {
+					return err
+				}
 			case "ndata-id":
 				entity.NDataID = p.Value
 			case "system-id":
@@ -431,16 +449,18 @@ var enders = map[string]func(r *XWRunner, command Command) error{
 		return r.xwriter.EndDTDAttList()
 	},
 	kindElem: func(r *XWRunner, command Command) error {
+		var err error
 		full := false
 		for _, param := range command.Params {
 			switch param.Name.Local {
 			case "full":
-				full = strings.ToLower(param.Value) == "true"
+				if full, err = parseBool(param.Value); err != nil {
+					return err
+				}
 			default:
 				return fmt.Errorf("unknown end element param")
 			}
 		}
-		var err error
 		if full {
 			err = r.xwriter.EndElemFull()
 		} else {
-- 
2.43.0


From f9bccd807821f0956608f4324de443226e4a23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:54 +0000
Subject: [PATCH 23/26] fix: gotester strips only XML white space from content

---
 tester/gotester/xwrunner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tester/gotester/xwrunner.go b/tester/gotester/xwrunner.go
index 5e4dbfe..b9d8141 100644
--- a/tester/gotester/xwrunner.go
+++ b/tester/gotester/xwrunner.go
@@ -77,7 +77,7 @@ func (e ErrUnknownParam) Error() string {
 func (c Command) CleanContent() string {
 	r := c.Content
 	if c.WS == "strip" {
-		r = wsStrip.ReplaceAllString(strings.TrimSpace(r), " ")
+		r = strings.Trim(wsStrip.ReplaceAllString(r, " "), " ")
 	}
 	return r
 }
-- 
2.43.0


From 92ed878432ce867f0c23d7071ac42de9d0e3805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 24/26] fix: a StandardIndenter that NewStandardIndenter did
 not create no longer panics

---
 indenter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indenter.go b/indenter.go
index 4dd74ce..257febe 100644
--- a/indenter.go
+++ b/indenter.go
@@ -58,6 +58,11 @@ func (s *StandardIndenter) Wrap(content string) string {
 func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 	// fmt.Print(next.String())
 
+	if len(s.stack) == 0 {
+		// not created by NewStandardIndenter
+		s.stack = append(s.stack, indentLevel{})
+	}
+
 	isIndenting := (next.Node == ElemNode || next.Node == DTDNode ||
 		next.Node == DTDAttListNode)
 
-- 
2.43.0


From f1a12aa23c18bea88c1b4fb7fef9ca1f2fb16198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 25/26] fix: EndToDepth with the largest depth no longer ends
 every node

---
 writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index cafcf9e..12b921b 100644
--- a/writer.go
+++ b/writer.go
@@ -423,9 +423,8 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
-	limit := depth + 1
 	for {
-		if w.current <= limit {
+		if w.current-1 <= depth {
 			break
 		}
 		if err := w.pop(); err != nil {
-- 
2.43.0


From 57bb99e8cddd8189f32ca9b8bd890e619ab3557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 26/26] fix: a refused attribute declares no namespace and is
 not shown to the indenter

---
 attr.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/attr.go b/attr.go
index b393de0..7e392d3 100644
--- a/attr.go
+++ b/attr.go
@@ -72,16 +72,15 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	if w.Indenter != nil {
-		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
-			return err
-		}
-	}
-
 	name := a.Name
 	if a.Prefix != "" {
 		name = a.Prefix + ":" + name
 	}
+	if w.Enforce {
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
 
 	if a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
@@ -103,7 +102,14 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
+	// after the checks: an attribute which is refused is not shown to the indenter
+	if w.Indenter != nil {
+		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
+			return err
+		}
+	}
+
+	if err := w.printer.printAttr(name, a.Value, false); err != nil {
 		return err
 	}
 	if w.Indenter != nil {
-- 
2.43.0

