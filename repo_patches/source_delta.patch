From 3f90b2e83e742e0e7f242d070e8fb1abc11f21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:38 +0000
Subject: [PATCH 01/26] fix: keep element content byte-exact when scanning
 documents

Element content was rebuilt from parsed tags, so whitespace and quoting in
tags changed, attribute order was random and tags inside comments or CDATA
sections were treated as elements. Set and Delete used offsets into the
rebuilt content and edited the wrong bytes. Content is now a slice of the
source, comments, CDATA sections and processing instructions are skipped,
and text extraction no longer drops '>' characters.
---
 parser.go | 299 +++++++++++++++++++++++-------------------------------
 1 file changed, 128 insertions(+), 171 deletions(-)

diff --git a/parser.go b/parser.go
index 2253de1..562b13f 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"strings"
 )
 
@@ -246,8 +247,9 @@ func (p *xmlParser) parseElementName() (string, map[string]string, bool) {
 	return name, attrs, isSelfClosing
 }
 
-// parseElementContent extracts the content between opening and closing tags
-// Returns the text content, handling nested elements and escaping
+// parseElementContent extracts the content between opening and closing tags.
+// The content is returned exactly as written in the source, so that offsets into
+// it are valid offsets into the document.
 func (p *xmlParser) parseElementContent(elementName string) string {
 	// Track nesting depth to prevent stack overflow attacks
 	p.depth++
@@ -258,106 +260,64 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	}
 	defer func() { p.depth-- }()
 
-	var content strings.Builder
+	contentStart := p.pos
 	// Track element-specific depth for matching tags
 	elementDepth := 1
 
-	for p.pos < p.dataLen && elementDepth > 0 {
-		c := p.peek()
+	for p.pos < p.dataLen {
+		if p.peek() != '<' || p.pos+1 >= p.dataLen {
+			p.next()
+			continue
+		}
+		if p.skipMarkup() {
+			continue
+		}
+
+		if p.data[p.pos+1] == '/' {
+			// Closing tag
+			contentEnd := p.pos
+			p.pos += 2 // skip '</'
+			closeName := p.readUntil('>')
+			p.next() // skip '>'
+
+			// Extract just the element name (before any whitespace)
+			closeName = strings.TrimSpace(closeName)
+			if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
+				closeName = closeName[:idx]
+			}
 
-		if c == '<' {
-			// Check if this is a closing tag, opening tag, or comment/CDATA
-			if p.pos+1 < p.dataLen {
-				next := p.data[p.pos+1]
-
-				if next == '/' {
-					// Closing tag
-					p.next() // skip '<'
-					p.next() // skip '/'
-					closeName := p.readUntil('>')
-					p.next() // skip '>'
-
-					// Extract just the element name (before any whitespace)
-					closeName = strings.TrimSpace(closeName)
-					if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
-						closeName = closeName[:idx]
-					}
-
-					if closeName == elementName {
-						elementDepth--
-						if elementDepth == 0 {
-							break
-						}
-					}
-					content.WriteString("</")
-					content.WriteString(closeName)
-					content.WriteString(">")
-				} else if next == '!' {
-					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
-					p.next()
-				} else {
-					// Opening tag of nested element
-					p.next() // skip '<'
-					nestedName := p.readUntilAny(" \t\n\r/>")
-
-					// Write the opening tag
-					content.WriteString("<")
-					content.WriteString(nestedName)
-
-					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
-						content.WriteString(" ")
-						content.WriteString(attrName)
-						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
-						content.WriteString("\"")
-					}
-
-					isSelfClosing := false
-					if p.peek() == '/' {
-						p.next()
-						isSelfClosing = true
-						content.WriteString("/")
-					}
-
-					if p.peek() == '>' {
-						p.next()
-						content.WriteString(">")
-					}
-
-					// Only increment elementDepth if this is the same element type we're tracking
-					if !isSelfClosing && nestedName == elementName {
-						elementDepth++
-					}
+			if closeName == elementName {
+				elementDepth--
+				if elementDepth == 0 {
+					return string(p.data[contentStart:contentEnd])
 				}
-			} else {
-				content.WriteByte(c)
-				p.next()
 			}
-		} else {
-			content.WriteByte(c)
-			p.next()
+			continue
+		}
+
+		// Opening tag of nested element
+		p.next() // skip '<'
+		nestedName, _, isSelfClosing := p.parseElementName()
+
+		// Only increment elementDepth if this is the same element type we're tracking
+		if !isSelfClosing && nestedName == elementName {
+			elementDepth++
 		}
 	}
 
-	return content.String()
+	return string(p.data[contentStart:])
 }
 
 // extractTextContent extracts only text content, stripping out all XML tags
 func extractTextContent(content string) string {
 	var result strings.Builder
-	inTag := false
-
-	for i := 0; i < len(content); i++ {
-		c := content[i]
-		if c == '<' {
-			inTag = true
-		} else if c == '>' {
-			inTag = false
-		} else if !inTag {
-			result.WriteByte(c)
+	p := newXMLParser(stringToBytes(content))
+
+	for p.pos < p.dataLen {
+		if p.peek() == '<' {
+			p.skipTag()
+		} else {
+			result.WriteByte(p.next())
 		}
 	}
 
@@ -368,28 +328,13 @@ func extractTextContent(content string) string {
 // This is used for the % operator
 func extractDirectTextOnly(content string) string {
 	var result strings.Builder
-	inTag := false
+	p := newXMLParser(stringToBytes(content))
 	depth := 0
 
-	for i := 0; i < len(content); i++ {
-		c := content[i]
-		if c == '<' {
-			inTag = true
-			// Check if it's an opening or closing tag
-			if i+1 < len(content) && content[i+1] == '/' {
-				// Closing tag
-				depth--
-			} else if i+1 < len(content) && content[i+1] != '!' && content[i+1] != '?' {
-				// Opening tag (not comment or PI)
-				depth++
-			}
-		} else if c == '>' {
-			// Check for self-closing tag
-			if i > 0 && content[i-1] == '/' {
-				depth--
-			}
-			inTag = false
-		} else if !inTag && depth == 0 {
+	for p.pos < p.dataLen {
+		if p.peek() == '<' {
+			depth += p.skipTag()
+		} else if c := p.next(); depth == 0 {
 			// Only collect text when not inside a nested element
 			result.WriteByte(c)
 		}
@@ -398,78 +343,90 @@ func extractDirectTextOnly(content string) string {
 	return strings.TrimSpace(result.String())
 }
 
+// skipTag advances past the tag, comment or other markup starting at the current position.
+// Returns the change in nesting depth: 1 for an opening tag, -1 for a closing tag, else 0.
+func (p *xmlParser) skipTag() int {
+	if p.skipMarkup() {
+		return 0
+	}
+	p.next() // skip '<'
+	if p.peek() == '/' {
+		p.readUntil('>')
+		p.next()
+		return -1
+	}
+	if _, _, isSelfClosing := p.parseElementName(); isSelfClosing {
+		return 0
+	}
+	return 1
+}
+
 // skipToNextElement advances the parser to the next element opening tag
 func (p *xmlParser) skipToNextElement() bool {
 	for p.pos < p.dataLen {
-		if p.peek() == '<' {
-			if p.pos+1 < p.dataLen {
-				next := p.data[p.pos+1]
-				if next != '!' && next != '?' && next != '/' {
-					// This is an opening tag
-					return true
-				}
-				// Skip comments, processing instructions, closing tags
-				if next == '!' {
-					// Check for DOCTYPE declaration (XXE protection)
-					// Case-insensitive check to prevent bypass with <!doctype> or mixed case
-					if p.pos+8 < p.dataLen {
-						doctypeEnd := p.pos + 9
-						if doctypeEnd > p.dataLen {
-							doctypeEnd = p.dataLen
-						}
-						doctype := string(p.data[p.pos:doctypeEnd])
-						if strings.EqualFold(doctype, "<!DOCTYPE") {
-							// DOCTYPE detected - skip it to prevent XXE attacks
-							p.pos += len(doctype)
-							// Skip to end of DOCTYPE declaration
-							depth := 0
-							for p.pos < p.dataLen {
-								c := p.data[p.pos]
-								if c == '[' {
-									depth++
-								} else if c == ']' {
-									depth--
-								} else if c == '>' && depth == 0 {
-									p.pos++
-									break
-								}
-								p.pos++
-							}
-							continue
-						}
-					}
-					// Skip comment or CDATA
-					p.next() // skip '<'
-					p.next() // skip '!'
-					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
-						// Comment: skip to -->
-						for p.pos < p.dataLen-2 {
-							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
-								p.pos += 3
-								break
-							}
-							p.pos++
-						}
-					}
-				} else if next == '?' {
-					// Skip processing instruction
-					p.readUntil('>')
-					p.next()
-				} else {
-					// Skip closing tag
-					p.readUntil('>')
-					p.next()
-				}
-			} else {
-				return false
-			}
-		} else {
+		if p.peek() != '<' {
 			p.next()
+			continue
+		}
+		if p.pos+1 >= p.dataLen {
+			return false
+		}
+		if p.skipMarkup() {
+			continue
 		}
+		if p.data[p.pos+1] != '/' {
+			// This is an opening tag
+			return true
+		}
+		// Skip closing tag
+		p.readUntil('>')
+		p.next()
 	}
 	return false
 }
 
+// skipMarkup advances past the comment, CDATA section, processing instruction or
+// declaration starting at the current position. It reports whether one was found.
+func (p *xmlParser) skipMarkup() bool {
+	rest := p.data[p.pos:]
+	switch {
+	case bytes.HasPrefix(rest, []byte("<!--")):
+		p.skipPast(4, "-->")
+	case bytes.HasPrefix(rest, []byte("<![CDATA[")):
+		p.skipPast(9, "]]>")
+	case len(rest) >= 9 && strings.EqualFold(string(rest[:9]), "<!DOCTYPE"):
+		// DOCTYPE detected - skip it to prevent XXE attacks
+		// Case-insensitive check to prevent bypass with <!doctype> or mixed case
+		p.pos += 9
+		depth := 0
+		for p.pos < p.dataLen {
+			c := p.next()
+			if c == '[' {
+				depth++
+			} else if c == ']' {
+				depth--
+			} else if c == '>' && depth == 0 {
+				break
+			}
+		}
+	case bytes.HasPrefix(rest, []byte("<!")), bytes.HasPrefix(rest, []byte("<?")):
+		p.skipPast(2, ">")
+	default:
+		return false
+	}
+	return true
+}
+
+// skipPast skips n bytes and then everything up to and including the terminator
+func (p *xmlParser) skipPast(n int, terminator string) {
+	idx := bytes.Index(p.data[p.pos+n:], []byte(terminator))
+	if idx < 0 {
+		p.pos = p.dataLen
+		return
+	}
+	p.pos += n + idx + len(terminator)
+}
+
 // XML escaping functions
 
 // xmlEscaper is a pre-compiled replacer for efficient XML escaping
-- 
2.43.0


From 30d268999e045d7cc37154e20489655b7b52764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:59 +0000
Subject: [PATCH 02/26] fix: skip attributes beyond the limit instead of
 leaving them in the content

An element with more than 100 attributes had the rest of its opening tag
parsed as element content. The excess attributes are now consumed and ignored.
---
 parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 562b13f..79caf19 100644
--- a/parser.go
+++ b/parser.go
@@ -173,11 +173,6 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	for {
 		p.skipWhitespace()
 
-		// Security check: enforce maximum attribute count to prevent DoS attacks
-		if attrCount >= MaxAttributes {
-			break
-		}
-
 		// Check if we've reached the end of the tag
 		if p.pos >= p.dataLen {
 			break
@@ -193,6 +188,7 @@ func (p *xmlParser) parseAttributes() map[string]string {
 		if name == "" {
 			break
 		}
+		// Security check: attributes beyond the maximum are skipped, not stored
 		attrCount++
 
 		p.skipWhitespace()
@@ -211,11 +207,15 @@ func (p *xmlParser) parseAttributes() map[string]string {
 			p.next() // skip opening quote
 			value := p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
+			if attrCount <= MaxAttributes {
+				attrs[name] = unescapeXML(value)
+			}
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
 			value := p.readUntilAny(" \t\n\r/>")
-			attrs[name] = unescapeXML(value)
+			if attrCount <= MaxAttributes {
+				attrs[name] = unescapeXML(value)
+			}
 		}
 	}
 
-- 
2.43.0


From 5a136c221406a79ed7c63bd91d21aa2fcc49aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:20 +0000
Subject: [PATCH 03/26] fix: locate closing tags that contain whitespace

The position of a closing tag was derived from the element name length, so
Set and Delete cut the document at the wrong byte for tags like </name >.
---
 builder.go | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..11fdb8e 100644
--- a/builder.go
+++ b/builder.go
@@ -168,7 +168,7 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 // elementLocation tracks the position of an element in the source XML
 type elementLocation struct {
 	startPos      int    // Position of '<' in opening tag
-	endTagPos     int    // Position of '<' in closing tag
+	endPos        int    // Position after '>' of closing tag (or of self-closing tag)
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
 	elementName   string // Name of the element
@@ -218,19 +218,14 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				if segIndex+2 == len(segments) {
 					// This is the target element
 					contentStart := parser.pos
-					var contentEnd, endTagPos int
-					if isSelfClosing {
-						contentEnd = parser.pos
-						endTagPos = parser.pos
-					} else {
-						_ = parser.parseElementContent(elemName)
+					contentEnd := contentStart
+					if !isSelfClosing {
+						contentEnd += len(parser.parseElementContent(elemName))
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
-						contentEnd = endTagPos
 					}
 					return &elementLocation{
 						startPos:      elemStartPos + baseOffset,
-						endTagPos:     endTagPos + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
 						elementName:   elemName,
@@ -268,22 +263,14 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 		if isLastSegment {
 			// Found the target element
 			contentStart := parser.pos
-			var contentEnd, endTagPos int
-			if isSelfClosing {
-				contentEnd = parser.pos
-				endTagPos = parser.pos
-			} else {
-				startOfContent := parser.pos
-				_ = parser.parseElementContent(elemName)
+			contentEnd := contentStart
+			if !isSelfClosing {
+				contentEnd += len(parser.parseElementContent(elemName))
 				// parser.pos is now just after the '>' of </name>
-				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
-				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
-				endTagPos:     endTagPos + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
 				elementName:   elemName,
@@ -518,8 +505,8 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 	}
 
 	// Find where root element ends
-	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := parser.pos
+	contentEnd += len(parser.parseElementContent(elemName))
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1059,16 +1046,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	b.result.Write(b.data[:location.startPos])
 
 	// Skip the element and its closing tag
-	if location.isSelfClosing {
-		// Self-closing tag: <tag attr="val"/>
-		// location.contentStart points to position after '/>', so we can write from there
-		b.result.Write(b.data[location.contentStart:])
-	} else {
-		// Regular element: <tag>content</tag>
-		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
-	}
+	b.result.Write(b.data[location.endPos:])
 
 	return nil
 }
-- 
2.43.0


From 879a6fba133053f7bd72ace331b55b68c9e29eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:33 +0000
Subject: [PATCH 04/26] fix: expand self-closing elements when setting a value

Set wrote the value after the tag, turning <a/> into <a/>value. It now
produces <a>value</a>. Attributes of an expanded tag are written in sorted
order, so the result no longer depends on map iteration order.
---
 builder.go | 64 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/builder.go b/builder.go
index 11fdb8e..d02314c 100644
--- a/builder.go
+++ b/builder.go
@@ -311,6 +311,18 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Convert <tag/> to <tag>value</tag>
+		b.result.Write(b.data[:location.startPos])
+		b.writeOpeningTag(location.elementName, location.attrs)
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.endPos:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
@@ -324,6 +336,26 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	return nil
 }
 
+// writeOpeningTag writes an opening tag with its attributes in sorted order
+func (b *xmlBuilder) writeOpeningTag(name string, attrs map[string]string) {
+	attrNames := make([]string, 0, len(attrs))
+	for attrName := range attrs {
+		attrNames = append(attrNames, attrName)
+	}
+	sort.Strings(attrNames)
+
+	b.result.WriteString("<")
+	b.result.WriteString(name)
+	for _, attrName := range attrNames {
+		b.result.WriteString(" ")
+		b.result.WriteString(attrName)
+		b.result.WriteString(`="`)
+		b.result.WriteString(escapeXML(attrs[attrName]))
+		b.result.WriteString(`"`)
+	}
+	b.result.WriteString(">")
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
@@ -475,21 +507,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		// Write everything BEFORE the self-closing tag
 		b.result.Write(b.data[:elemStartPos])
 		// Build new opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(elemName)
-
-		// Write attributes if any
-		if len(attrs) > 0 {
-			for k, v := range attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.writeOpeningTag(elemName, attrs)
 
 		// Build the path
 		b.buildElementPath(pathToCreate, xmlValue, isRaw)
@@ -587,21 +605,7 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 		b.result.Write(b.data[:parentLocation.startPos])
 
 		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLocation.elementName)
-
-		// Write attributes if any
-		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.writeOpeningTag(parentLocation.elementName, parentLocation.attrs)
 
 		// Build the missing path
 		b.buildElementPath(remainingPath, xmlValue, isRaw)
-- 
2.43.0


From e50686e183148acdbd72795502e6198d30794805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:01 +0000
Subject: [PATCH 05/26] fix: return the empty document when the only root
 element is deleted

Delete returned the original document because an empty result was taken to
mean that nothing had been written.
---
 set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index d9a89fa..a5ed1d6 100644
--- a/set.go
+++ b/set.go
@@ -515,5 +515,6 @@ func DeleteBytesWithOptions(xml []byte, path string, opts *Options) ([]byte, err
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	// The result may be empty when the only root element was deleted
+	return []byte(builder.result.String()), nil
 }
-- 
2.43.0


From 8784bbd4f6809ebd25916d7d5d2d7b47e855150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:06 +0000
Subject: [PATCH 06/26] fix: reject Set paths that cannot name a new element

Setting a path with an out-of-range index, a count, a text or a filter
segment created elements with an empty name (<>value</>). Attribute names
were not checked either. These paths now return ErrInvalidPath.
---
 builder.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/builder.go b/builder.go
index d02314c..83d6abb 100644
--- a/builder.go
+++ b/builder.go
@@ -139,6 +139,9 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		// This is an attribute set, not element set
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
+		if err := validateName(attrName); err != nil {
+			return fmt.Errorf("%w: invalid attribute name %q", ErrInvalidPath, attrName)
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
@@ -500,6 +503,9 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		// Nothing to create
 		return nil
 	}
+	if err := checkCreatable(pathToCreate); err != nil {
+		return err
+	}
 
 	if isSelfClosing {
 		// Root is self-closing - convert to full element with content
@@ -584,6 +590,10 @@ func (b *xmlBuilder) shouldCreateSiblingRoot(targetRootName string) bool {
 //	Set("deny.prefix", "10.0.0.0")
 //	Result: <sequence>10</sequence><deny><prefix>10.0.0.0</prefix></deny>
 func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(path); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	// Copy all existing XML
@@ -597,6 +607,10 @@ func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRa
 
 // createInParent creates missing elements within a parent element
 func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPath []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(remainingPath); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	if parentLocation.isSelfClosing {
@@ -948,6 +962,16 @@ func (b *xmlBuilder) findLastMatchPosition(parent *elementLocation, targetSeg Pa
 	return lastMatchEnd
 }
 
+// checkCreatable reports an error unless every segment names an element that can be created
+func checkCreatable(path []PathSegment) error {
+	for _, seg := range path {
+		if seg.Type != SegmentElement || seg.Value == "" {
+			return fmt.Errorf("%w: only named elements can be created", ErrInvalidPath)
+		}
+	}
+	return nil
+}
+
 // buildElementPath builds a chain of nested elements
 func (b *xmlBuilder) buildElementPath(path []PathSegment, xmlValue string, isRaw bool) {
 	b.buildElementPathWithDepth(path, xmlValue, isRaw, 0)
-- 
2.43.0


From 83cdb861e5ebe4863ad9b3266ca11af26db36f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:18 +0000
Subject: [PATCH 07/26] fix: let Set and Delete find the element that Get
 returns

Get tries later siblings when the first one does not contain the rest of the
path. Set and Delete stopped at the first sibling, so Delete left an element
in place that Get could still read.
---
 builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 83d6abb..74560f9 100644
--- a/builder.go
+++ b/builder.go
@@ -298,7 +298,10 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 			// Overflow detected
 			return nil, false
 		}
-		return b.findElementLocation(contentParser, segments, segIndex+1, newOffset)
+		// Like Get, try the next matching sibling if the rest of the path is not found here
+		if location, found := b.findElementLocation(contentParser, segments, segIndex+1, newOffset); found {
+			return location, true
+		}
 	}
 
 	return nil, false
-- 
2.43.0


From f56eb85fe1cbde69ce5d87db39e0dc37c1a2631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 08/26] fix: apply modifiers once to the complete query result

Modifiers were dropped for recursive wildcards, for root-level indexes and
counts and for most queries with options. Below a wildcard they were applied
twice. Nested wildcards could also return more than MaxWildcardResults results.
---
 get.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/get.go b/get.go
index c97fb46..fbed3ce 100644
--- a/get.go
+++ b/get.go
@@ -91,7 +91,29 @@ func GetBytes(xml []byte, path string) Result {
 	parser := newXMLParser(xml)
 
 	// Execute the query
-	return executeQuery(parser, segments, 0)
+	modifiers := takeModifiers(segments)
+	return finishQuery(executeQuery(parser, segments, 0), modifiers)
+}
+
+// takeModifiers removes the modifiers from the last segment and returns them.
+// The segments must not be shared with the path cache.
+func takeModifiers(segments []PathSegment) []string {
+	last := &segments[len(segments)-1]
+	modifiers := last.Modifiers
+	last.Modifiers = nil
+	return modifiers
+}
+
+// finishQuery limits the number of results and applies the modifiers of the
+// last path segment once, to the complete result.
+func finishQuery(result Result, modifiers []string) Result {
+	if len(result.Results) > MaxWildcardResults {
+		result.Results = result.Results[:MaxWildcardResults]
+	}
+	if len(modifiers) == 0 || result.Type == Null || (result.Type == Array && len(result.Results) == 0) {
+		return result
+	}
+	return applyModifiers(result, modifiers)
 }
 
 const (
@@ -868,7 +890,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 			return Result{Type: Null}
 		}
 		parser := newXMLParser(xml)
-		return executeQuery(parser, segments, 0)
+		modifiers := takeModifiers(segments)
+		return finishQuery(executeQuery(parser, segments, 0), modifiers)
 	}
 
 	// Parse path with options-aware parsing
@@ -881,7 +904,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 	parser := newXMLParser(xml)
 
 	// Execute query with options
-	return executeQueryWithOptions(parser, segments, 0, opts)
+	modifiers := takeModifiers(segments)
+	return finishQuery(executeQueryWithOptions(parser, segments, 0, opts), modifiers)
 }
 
 // parsePathWithOptions parses a path with options-aware parsing.
-- 
2.43.0


From 31cd0a1fa1cca451076be1233f8682f4f6d20fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:33 +0000
Subject: [PATCH 09/26] fix: match namespaced names in root-level arrays and
 field extraction

A path without a prefix matches elements by local name. Root-level indexes
and counts and #.field compared the full name instead and found nothing.
---
 get.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/get.go b/get.go
index fbed3ce..7782250 100644
--- a/get.go
+++ b/get.go
@@ -143,7 +143,7 @@ type searchContext struct {
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
-func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
+func collectFragmentRoots(parser *xmlParser, targetSeg PathSegment) []elementMatch {
 	var matches []elementMatch
 
 	for parser.skipToNextElement() {
@@ -156,7 +156,7 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
 		// Only collect roots with matching name
-		if elemName != targetName {
+		if !targetSeg.matches(elemName) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
@@ -199,7 +199,7 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 		nextSeg := segments[1]
 		if nextSeg.Type == SegmentIndex || nextSeg.Type == SegmentCount || nextSeg.Type == SegmentFieldExtraction {
 			// Array operation on fragment roots - collect all matching roots
-			matches := collectFragmentRoots(parser, currentSeg.Value)
+			matches := collectFragmentRoots(parser, currentSeg)
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
@@ -952,7 +952,7 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 		nextSeg := segments[1]
 		if nextSeg.Type == SegmentIndex || nextSeg.Type == SegmentCount || nextSeg.Type == SegmentFieldExtraction {
 			// Array operation on fragment roots - collect all matching roots
-			matches := collectFragmentRoots(parser, currentSeg.Value)
+			matches := collectFragmentRoots(parser, currentSeg)
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
@@ -1565,6 +1565,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 			}
 		} else {
 			// Extract child element(s) with matching name
+			fieldSeg := PathSegment{Type: SegmentElement, Value: fieldName}
 			parser := newXMLParser([]byte(match.content))
 			for parser.skipToNextElement() {
 				// Security: Check limit on each iteration
@@ -1576,7 +1577,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Check if element name matches field name
-				if elemName != fieldName {
+				if !fieldSeg.matches(elemName) {
 					// Skip this element
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
@@ -1690,10 +1691,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 		} else {
 			// Extract child element(s) with matching name (case-insensitive if needed)
 			parser := newXMLParser([]byte(match.content))
-			fieldNameCmp := fieldName
-			if !opts.CaseSensitive {
-				fieldNameCmp = toLowerASCII(fieldName)
-			}
+			fieldSeg := PathSegment{Type: SegmentElement, Value: fieldName}
 
 			for parser.skipToNextElement() {
 				if totalExtracted >= MaxWildcardResults {
@@ -1704,12 +1702,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Case-aware comparison
-				elemNameCmp := elemName
-				if !opts.CaseSensitive {
-					elemNameCmp = toLowerASCII(elemName)
-				}
-
-				if elemNameCmp != fieldNameCmp {
+				if !fieldSeg.matchesWithOptions(elemName, opts) {
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
 					}
-- 
2.43.0


From fdda097671e351ed0c78a49c1d29a3060d467d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:58 +0000
Subject: [PATCH 10/26] fix: support text access after an index below the root

items.item.0.% returned nothing although item.0.% on root elements worked.
---
 get.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/get.go b/get.go
index 7782250..b25b4a0 100644
--- a/get.go
+++ b/get.go
@@ -547,6 +547,15 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						return Result{Type: Null}
 					}
 
+					// Check if followed by text content
+					if segments[segIndex+2].Type == SegmentText {
+						return Result{
+							Type: String,
+							Str:  unescapeXML(extractDirectTextOnly(match.content)),
+							Raw:  match.content,
+						}
+					}
+
 					// Continue matching within this element
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQuery(contentParser, segments, segIndex+2)
@@ -1273,6 +1282,15 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						return Result{Type: Null}
 					}
 
+					// Check if followed by text content
+					if segments[segIndex+2].Type == SegmentText {
+						return Result{
+							Type: String,
+							Str:  unescapeXML(extractDirectTextOnly(match.content)),
+							Raw:  match.content,
+						}
+					}
+
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
 				}
-- 
2.43.0


From 4684b3804a58a8cffb0b83f4db25ba70dd726f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:20 +0000
Subject: [PATCH 11/26] fix: do not panic on a filter value that is a single
 quote character

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..aa39e38 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,8 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	if len(value) >= 2 && ((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From fcf04a55143dffb7a095a719a2d892399d10b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:37 +0000
Subject: [PATCH 12/26] fix: do not split paths on dots inside filters

Filters such as #(price>10.5) were cut at the decimal point and ignored.
---
 path.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 77c47b4..a3e6b43 100644
--- a/path.go
+++ b/path.go
@@ -309,7 +309,7 @@ func parsePathInternal(path string) []PathSegment {
 	return processedSegments
 }
 
-// splitPath splits a path on dots, handling escapes
+// splitPath splits a path on dots outside filters, handling escapes
 func splitPath(path string) []string {
 	if path == "" {
 		return nil
@@ -318,6 +318,7 @@ func splitPath(path string) []string {
 	var parts []string
 	var current strings.Builder
 	escaped := false
+	filterDepth := 0 // Nesting depth of parentheses inside a #(...) filter
 
 	for i := 0; i < len(path); i++ {
 		c := path[i]
@@ -333,7 +334,13 @@ func splitPath(path string) []string {
 			continue
 		}
 
-		if c == '.' {
+		if c == '(' && (filterDepth > 0 || current.String() == "#") {
+			filterDepth++
+		} else if c == ')' && filterDepth > 0 {
+			filterDepth--
+		}
+
+		if c == '.' && filterDepth == 0 {
 			// Split point
 			parts = append(parts, current.String())
 			current.Reset()
-- 
2.43.0


From e2ea883b0d643d1eca9eede11ccc848ec84e47fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:02 +0000
Subject: [PATCH 13/26] fix: reject malformed fragments in SetRaw

Unclosed closing tags, broken attributes and comments such as <!--> were
accepted and produced malformed documents. DOCTYPE and ENTITY declarations
were only rejected in upper case.
---
 set.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index a5ed1d6..f6dbd1a 100644
--- a/set.go
+++ b/set.go
@@ -179,10 +179,10 @@ func validateRawXML(rawxml string) error {
 					// but we can optionally warn about suspicious patterns
 
 					i = cdataStart + cdataEnd + 3
-				} else if strings.HasPrefix(rawxml[i:], "<!DOCTYPE") {
+				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {
 					// DOCTYPE - REJECT for security
 					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)
-				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
+				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
@@ -236,9 +236,19 @@ func validateRawXML(rawxml string) error {
 		return ErrInvalidValue
 	}
 
+	// The fragment must be well-formed as element content
+	if !Valid("<raw>" + rawxml + "</raw>") {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
+// hasPrefixFold reports whether s begins with prefix, ignoring case
+func hasPrefixFold(s, prefix string) bool {
+	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)
+}
+
 // SetMany performs multiple Set operations, applying each modification
 // sequentially. This is more convenient than calling Set multiple times manually.
 // If multiple paths overlap, later operations take precedence.
-- 
2.43.0


From c2ddc38535b1fa5560800e214662d856c41c6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:25 +0000
Subject: [PATCH 14/26] fix: accept well-formed fragments with unusual tags in
 SetRaw

Line breaks after a tag name and '/>' or '>' inside attribute values made
SetRaw reject valid fragments. A double quote in a raw attribute value ended
the attribute; it is now written as &quot;.
---
 builder.go |  4 ++++
 set.go     | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/builder.go b/builder.go
index 74560f9..1f768b2 100644
--- a/builder.go
+++ b/builder.go
@@ -142,6 +142,10 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		if err := validateName(attrName); err != nil {
 			return fmt.Errorf("%w: invalid attribute name %q", ErrInvalidPath, attrName)
 		}
+		if isRaw {
+			// Raw values must not end the quoted attribute value
+			xmlValue = strings.ReplaceAll(xmlValue, `"`, "&quot;")
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
diff --git a/set.go b/set.go
index f6dbd1a..a79fb64 100644
--- a/set.go
+++ b/set.go
@@ -126,7 +126,7 @@ func validateRawXML(rawxml string) error {
 				tagNameStart := i
 
 				// Extract tag name
-				for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' {
+				for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) {
 					i++
 				}
 				tagName := rawxml[tagNameStart:i]
@@ -199,7 +199,7 @@ func validateRawXML(rawxml string) error {
 			// Opening tag - extract tag name
 			i++
 			tagNameStart := i
-			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' && rawxml[i] != '/' {
+			for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) && rawxml[i] != '/' {
 				i++
 			}
 			tagName := rawxml[tagNameStart:i]
@@ -218,6 +218,13 @@ func validateRawXML(rawxml string) error {
 				} else if rawxml[i] == '>' {
 					i++
 					break
+				} else if c := rawxml[i]; c == '"' || c == '\'' {
+					// Skip quoted attribute value
+					end := strings.IndexByte(rawxml[i+1:], c)
+					if end == -1 {
+						return ErrInvalidValue
+					}
+					i += end + 1
 				}
 				i++
 			}
-- 
2.43.0


From 3c300861c78e0ede4af3f34347d61ee15e1115b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:30 +0000
Subject: [PATCH 15/26] fix: refuse edits that would exceed the document size
 or attribute limits

Set could return a document larger than MaxDocumentSize, or with more than
MaxAttributes attributes on one element, which later calls reject.
---
 builder.go | 3 +++
 set.go     | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 1f768b2..1201c89 100644
--- a/builder.go
+++ b/builder.go
@@ -404,6 +404,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		}
 	}
 	if !attrExists {
+		if len(attrNames) >= MaxAttributes {
+			return fmt.Errorf("%w: too many attributes (maximum %d)", ErrInvalidPath, MaxAttributes)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
diff --git a/set.go b/set.go
index a79fb64..10d19e0 100644
--- a/set.go
+++ b/set.go
@@ -501,7 +501,12 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	result := builder.getResult()
+	if len(result) > MaxDocumentSize {
+		return xml, fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
+	}
+
+	return []byte(result), nil
 }
 
 // DeleteBytesWithOptions is like DeleteBytes but accepts Options for behavioral control.
-- 
2.43.0


From 39a3c3c0ea2ca515193874b39c232f490bf3ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:38 +0000
Subject: [PATCH 16/26] fix: refuse raw and oversized values that leave the
 document malformed

A raw value could unbalance the document or exceed the nesting limit, and an
attribute value larger than MaxTokenSize cannot be read back.
---
 builder.go | 3 +++
 set.go     | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/builder.go b/builder.go
index 1201c89..d8c7151 100644
--- a/builder.go
+++ b/builder.go
@@ -146,6 +146,9 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 			// Raw values must not end the quoted attribute value
 			xmlValue = strings.ReplaceAll(xmlValue, `"`, "&quot;")
 		}
+		if len(xmlValue) > MaxTokenSize {
+			return fmt.Errorf("%w: attribute value exceeds maximum size of %d bytes", ErrInvalidValue, MaxTokenSize)
+		}
 
 		// Find the parent element
 		parser := newXMLParser(b.data)
diff --git a/set.go b/set.go
index 10d19e0..638fbf4 100644
--- a/set.go
+++ b/set.go
@@ -506,6 +506,11 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return xml, fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
 	}
 
+	// Raw values are not escaped and must leave the document well-formed
+	if _, isRaw := value.([]byte); isRaw && !Valid(result) {
+		return xml, fmt.Errorf("%w: raw value does not fit the document", ErrInvalidValue)
+	}
+
 	return []byte(result), nil
 }
 
-- 
2.43.0


From 4d97230a53de053b8686ff28f72386e32f1b94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:09 +0000
Subject: [PATCH 17/26] fix: extract fields below wildcards when options are
 given

GetWithOptions returned Null for #.field after ** and for * with no field
values, where Get returns the extracted values or an empty array.
---
 get.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/get.go b/get.go
index b25b4a0..ff60ce1 100644
--- a/get.go
+++ b/get.go
@@ -1341,6 +1341,8 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	var allResults []Result
+	hasFieldExtraction := false // Track if field extraction is in remaining path
+
 	for _, match := range matches {
 		nextSeg := segments[segIndex+1]
 
@@ -1385,6 +1387,10 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		contentParser := newXMLParser([]byte(match.content))
 		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 		if result.Type != Null {
+			// If we got an empty Array back, that means field extraction occurred
+			if result.Type == Array && len(result.Results) == 0 {
+				hasFieldExtraction = true
+			}
 			if result.Type == Array {
 				allResults = append(allResults, result.Results...)
 			} else {
@@ -1393,7 +1399,14 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		}
 	}
 
+	// If field extraction occurred (even with no results), return empty Array not Null
 	if len(allResults) == 0 {
+		if hasFieldExtraction {
+			return Result{
+				Type:    Array,
+				Results: []Result{},
+			}
+		}
 		return Result{Type: Null}
 	}
 
@@ -1517,6 +1530,16 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 						Str:  unescapeXML(textContent),
 						Raw:  content,
 					})
+				case SegmentFieldExtraction:
+					// Field extraction from current match
+					match := elementMatch{
+						name:          elemName,
+						attrs:         attrs,
+						content:       content,
+						isSelfClosing: isSelfClosing,
+					}
+					result := executeFieldExtractionWithOptions([]elementMatch{match}, nextSegment, opts)
+					*ctx.results = append(*ctx.results, result.Results...)
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
-- 
2.43.0


From 56047ef81bb15003e9b002b42d0722c7c7121e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:44 +0000
Subject: [PATCH 18/26] fix: make case-insensitive attribute lookup
 deterministic

When attributes differ only by case, the attribute returned depended on map
iteration order. The attribute that sorts first is now used.
---
 get.go | 128 ++++++++++++++++++++++++++++-----------------------------
 1 file changed, 63 insertions(+), 65 deletions(-)

diff --git a/get.go b/get.go
index ff60ce1..6398ac9 100644
--- a/get.go
+++ b/get.go
@@ -942,6 +942,19 @@ func parsePathWithOptions(path string, opts *Options) []PathSegment {
 	return segments
 }
 
+// lookupAttrFold finds an attribute by its lower-case name, ignoring case. If several
+// attributes differ only by case, the one that sorts first is returned.
+func lookupAttrFold(attrs map[string]string, lowerName string) (string, bool) {
+	found := ""
+	ok := false
+	for name := range attrs {
+		if toLowerASCII(name) == lowerName && (!ok || name < found) {
+			found, ok = name, true
+		}
+	}
+	return attrs[found], ok
+}
+
 // executeQueryWithOptions is like executeQuery but respects Options.
 // Phase 6: Implements CaseSensitive matching.
 // Future: Will implement PreserveWhitespace, Namespace resolution.
@@ -1190,16 +1203,14 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 < len(segments) {
-							return Result{Type: Null}
-						}
-						return Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						}
+				if v, ok := lookupAttrFold(attrs, attrName); ok {
+					if segIndex+2 < len(segments) {
+						return Result{Type: Null}
+					}
+					return Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
 					}
 				}
 				return Result{Type: Null}
@@ -1261,13 +1272,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
-								if toLowerASCII(k) == attrName {
-									return Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									}
+							if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+								return Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
 								}
 							}
 							return Result{Type: Null}
@@ -1349,15 +1358,13 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
-								Type: Attribute,
-								Str:  v,
-								Raw:  v,
-							})
-						}
+				if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+					if segIndex+2 >= len(segments) {
+						allResults = append(allResults, Result{
+							Type: Attribute,
+							Str:  v,
+							Raw:  v,
+						})
 					}
 				}
 				continue
@@ -1501,15 +1508,13 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
-							if toLowerASCII(k) == attrName {
-								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									})
-								}
+						if v, ok := lookupAttrFold(attrs, attrName); ok {
+							if segIndex+2 >= len(segments) {
+								*ctx.results = append(*ctx.results, Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
+								})
 							}
 						}
 					} else {
@@ -1697,16 +1702,13 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrNameLower {
-						results = append(results, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-						totalExtracted++
-						break // Only match first attribute with this name
-					}
+				if v, ok := lookupAttrFold(match.attrs, attrNameLower); ok {
+					results = append(results, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
+					totalExtracted++
 				}
 			} else {
 				// Case-sensitive attribute lookup
@@ -2139,19 +2141,17 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
-				if toLowerASCII(k) == attrName {
-					result := Result{
-						Type: Attribute,
-						Str:  v,
-						Raw:  v,
-					}
-					// Apply modifiers from the attribute segment if present
-					if len(nextSeg.Modifiers) > 0 {
-						result = applyModifiers(result, nextSeg.Modifiers)
-					}
-					return result
+			if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+				result := Result{
+					Type: Attribute,
+					Str:  v,
+					Raw:  v,
+				}
+				// Apply modifiers from the attribute segment if present
+				if len(nextSeg.Modifiers) > 0 {
+					result = applyModifiers(result, nextSeg.Modifiers)
 				}
+				return result
 			}
 			return Result{Type: Null}
 		}
@@ -2230,14 +2230,12 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-					}
+				if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+					allResults = append(allResults, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
 				}
 				continue
 			}
-- 
2.43.0


From e7eea818c2d7a156f97395a07571ec3f4fbf7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:24 +0000
Subject: [PATCH 19/26] fix: recursive wildcard searches no deeper than the
 nesting limit

---
 get.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/get.go b/get.go
index 6398ac9..0e2b944 100644
--- a/get.go
+++ b/get.go
@@ -742,7 +742,7 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segments []PathSegment, segIndex int, ctx *searchContext, depth int) {
 	// Security checks: limit recursion depth, result count, and total operations
 	ctx.operations++
-	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
+	if depth >= MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
 		return
 	}
 
@@ -1465,7 +1465,7 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 // recursiveSearchWithContextAndOptions is like recursiveSearchWithContext but with Options support
 func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegment, segments []PathSegment, segIndex int, ctx *searchContext, depth int, opts *Options) {
 	ctx.operations++
-	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
+	if depth >= MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
 		return
 	}
 
-- 
2.43.0


From 068ff19108b2b9b333de2fe2b2f245be02d28d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:24 +0000
Subject: [PATCH 20/26] fix: refuse to create elements and attributes whose
 names exceed the token limit

---
 builder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/builder.go b/builder.go
index d8c7151..6098d3c 100644
--- a/builder.go
+++ b/builder.go
@@ -139,6 +139,9 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		// This is an attribute set, not element set
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
+		if len(attrName) > MaxTokenSize {
+			return fmt.Errorf("%w: attribute name exceeds maximum size of %d bytes", ErrInvalidPath, MaxTokenSize)
+		}
 		if err := validateName(attrName); err != nil {
 			return fmt.Errorf("%w: invalid attribute name %q", ErrInvalidPath, attrName)
 		}
@@ -756,6 +759,9 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if elementSeg.Type != SegmentElement {
 		return fmt.Errorf("%w: can only append elements, not attributes or other types", ErrInvalidPath)
 	}
+	if err := checkCreatable([]PathSegment{elementSeg}); err != nil {
+		return err
+	}
 
 	// Find parent element location
 	parser := newXMLParser(b.data)
@@ -981,6 +987,9 @@ func checkCreatable(path []PathSegment) error {
 		if seg.Type != SegmentElement || seg.Value == "" {
 			return fmt.Errorf("%w: only named elements can be created", ErrInvalidPath)
 		}
+		if len(seg.Value) > MaxTokenSize {
+			return fmt.Errorf("%w: element name exceeds maximum size of %d bytes", ErrInvalidPath, MaxTokenSize)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 903d697ac2ddda3a438a8b8f1259f9bee98b846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:24 +0000
Subject: [PATCH 21/26] fix: report an oversized result of creating an
 attribute as an invalid value

---
 builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 6098d3c..3c281bd 100644
--- a/builder.go
+++ b/builder.go
@@ -693,7 +693,7 @@ func (b *xmlBuilder) createElementForAttribute(elementPath []PathSegment, attrSe
 
 	// Security check: Validate intermediate result size
 	if len(intermediateXML) > MaxDocumentSize {
-		return fmt.Errorf("%w: intermediate result exceeds maximum document size", ErrMalformedXML)
+		return fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
 	}
 
 	// Step 3: Reset builder state with new XML
-- 
2.43.0


From 66ca868a660feb3e37f1b71f3235ac029b44eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:47 +0000
Subject: [PATCH 22/26] fix: accept comments that begin with '>' in raw
 fragments

---
 set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/set.go b/set.go
index 638fbf4..56f0946 100644
--- a/set.go
+++ b/set.go
@@ -154,13 +154,13 @@ func validateRawXML(rawxml string) error {
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
+				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
-					endPos := strings.Index(rawxml[i:], "-->")
+					endPos := strings.Index(rawxml[i+4:], "-->")
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 3
+					i += endPos + 7
 				} else if strings.HasPrefix(rawxml[i:], "<![CDATA[") {
 					// CDATA - validate no nested CDATA or suspicious patterns
 					cdataStart := i + 9
-- 
2.43.0


From 3e24add9ce861b9466f0e4d7463a092560c8fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:07 +0000
Subject: [PATCH 23/26] fix: read only whole numbers as indexes in paths

A segment such as 1-2 or --1 was taken for an index, and since it is no
number the first element was read, changed or deleted. A minus sign now
counts only in front of the digits.
---
 path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index a3e6b43..b20ac23 100644
--- a/path.go
+++ b/path.go
@@ -360,9 +360,9 @@ func isNumeric(s string) bool {
 	if s == "" {
 		return false
 	}
-	for _, c := range s {
+	for i, c := range s {
 		if c < '0' || c > '9' {
-			if c == '-' && len(s) > 1 {
+			if c == '-' && i == 0 && len(s) > 1 {
 				// Allow negative indices
 				continue
 			}
-- 
2.43.0


From ad04720d553ab90fbf009bf888104aa71cf4b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:57 +0000
Subject: [PATCH 24/26] fix: keep white space in attribute values and comments
 with @ugly

---
 modifier.go | 49 ++++++++-----------------------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/modifier.go b/modifier.go
index d2a255f..93fa657 100644
--- a/modifier.go
+++ b/modifier.go
@@ -496,49 +496,16 @@ func compactXML(xmlStr string) string {
 	var buf strings.Builder
 	buf.Grow(len(xmlStr))
 
-	inTag := false
-	inCDATA := false
-
-	for i := 0; i < len(xmlStr); i++ {
-		// Check for CDATA start
-		if !inTag && i+9 <= len(xmlStr) && xmlStr[i:i+9] == "<![CDATA[" {
-			inCDATA = true
-			buf.WriteString(xmlStr[i : i+9])
-			i += 8
-			continue
-		}
-
-		// Check for CDATA end
-		if inCDATA && i+3 <= len(xmlStr) && xmlStr[i:i+3] == "]]>" {
-			inCDATA = false
-			buf.WriteString("]]>")
-			i += 2
-			continue
-		}
-
-		c := xmlStr[i]
-
-		// Preserve ALL whitespace in CDATA
-		if inCDATA {
-			buf.WriteByte(c)
-			continue
-		}
-
-		// Rest of existing logic for non-CDATA content
-		if c == '<' {
-			inTag = true
-			buf.WriteByte(c)
-		} else if c == '>' {
-			buf.WriteByte(c)
-			inTag = false
-		} else if inTag {
-			// Keep all whitespace inside tags (attributes)
-			buf.WriteByte(c)
-		} else if !isWhitespace(c) {
-			// Outside tags and not whitespace: keep the character
+	p := newXMLParser(stringToBytes(xmlStr))
+	for p.pos < p.dataLen {
+		start := p.pos
+		if p.peek() == '<' {
+			// Keep tags, comments, and CDATA sections as they are
+			p.skipTag()
+			buf.WriteString(xmlStr[start:p.pos])
+		} else if c := p.next(); !isWhitespace(c) {
 			buf.WriteByte(c)
 		}
-		// Skip whitespace outside tags (and not in CDATA)
 	}
 
 	return buf.String()
-- 
2.43.0


From 458a239973c6b108f476644f925627fe68c269fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:57 +0000
Subject: [PATCH 25/26] fix: do not count indexes as nesting levels when
 indenting an appended element

---
 builder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/builder.go b/builder.go
index 3c281bd..9629c62 100644
--- a/builder.go
+++ b/builder.go
@@ -846,10 +846,11 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if useIndent && insertPos > parentLoc.contentStart {
 		// Parent has content - add newline and indent
 		b.result.WriteString("\n")
-		// Calculate indent depth
-		depth := len(parentPath)
-		for i := 0; i < depth; i++ {
-			b.result.WriteString(indent)
+		// Indent once for each enclosing element (indexes add no level)
+		for _, seg := range parentPath {
+			if seg.Type != SegmentIndex {
+				b.result.WriteString(indent)
+			}
 		}
 	}
 
-- 
2.43.0


From 690ef990f2b9fe5f8f81382eda928859b1d456fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:57 +0000
Subject: [PATCH 26/26] fix: apply filters to the elements found by a recursive
 wildcard

---
 get.go | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/get.go b/get.go
index 0e2b944..812850f 100644
--- a/get.go
+++ b/get.go
@@ -138,6 +138,35 @@ type elementMatch struct {
 type searchContext struct {
 	operations int
 	results    *[]Result
+	filter     *PathSegment // Filter on the elements searched for, if any
+	done       bool         // Set when the filter wants the first element only and it was found
+}
+
+// target returns the segment to search for after ** and the index of the last segment
+// that describes the elements, which is the filter if one follows
+func (ctx *searchContext) target(segments []PathSegment, segIndex int) (PathSegment, int) {
+	targetSeg := segments[segIndex]
+	if targetSeg.Type == SegmentFilter {
+		ctx.filter = &segments[segIndex]
+		return PathSegment{Type: SegmentWildcard}, segIndex
+	}
+	if segIndex+1 < len(segments) && segments[segIndex+1].Type == SegmentFilter {
+		ctx.filter = &segments[segIndex+1]
+		return targetSeg, segIndex + 1
+	}
+	return targetSeg, segIndex
+}
+
+// accepts reports whether an element satisfies the filter of the search
+func (ctx *searchContext) accepts(attrs map[string]string, content string) bool {
+	if ctx.filter == nil {
+		return true
+	}
+	if !evaluateFilterOnMatch(ctx.filter.Filter, elementMatch{attrs: attrs, content: content}) {
+		return false
+	}
+	ctx.done = !ctx.filter.FilterAll
+	return true
 }
 
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
@@ -716,13 +745,10 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 		return Result{Type: Null}
 	}
 
-	// Get the segment to search for after **
-	nextSegIndex := segIndex + 1
-	targetSeg := segments[nextSegIndex]
-
 	// Recursively search for matches at any depth
 	var allResults []Result
 	ctx := &searchContext{operations: 0, results: &allResults}
+	targetSeg, nextSegIndex := ctx.target(segments, segIndex+1)
 	recursiveSearchWithContext(parser, targetSeg, segments, nextSegIndex, ctx, 0)
 
 	if len(allResults) == 0 {
@@ -748,7 +774,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 
 	isLastSegment := segIndex == len(segments)-1
 
-	for parser.skipToNextElement() {
+	for !ctx.done && parser.skipToNextElement() {
 		parser.next() // skip '<'
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
@@ -767,12 +793,12 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 		}
 
 		// Check operation limit again after recursion
-		if ctx.operations >= MaxRecursiveOperations {
+		if ctx.operations >= MaxRecursiveOperations || ctx.done {
 			return
 		}
 
 		// Then check if this element itself matches
-		if targetSeg.matches(elemName) {
+		if targetSeg.matches(elemName) && ctx.accepts(attrs, content) {
 			// Security check: stop if we've reached the result limit
 			if len(*ctx.results) >= MaxWildcardResults {
 				return
@@ -1443,11 +1469,9 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 		return Result{Type: Null}
 	}
 
-	nextSegIndex := segIndex + 1
-	targetSeg := segments[nextSegIndex]
-
 	var allResults []Result
 	ctx := &searchContext{operations: 0, results: &allResults}
+	targetSeg, nextSegIndex := ctx.target(segments, segIndex+1)
 	recursiveSearchWithContextAndOptions(parser, targetSeg, segments, nextSegIndex, ctx, 0, opts)
 
 	if len(allResults) == 0 {
@@ -1471,7 +1495,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 
 	isLastSegment := segIndex == len(segments)-1
 
-	for parser.skipToNextElement() {
+	for !ctx.done && parser.skipToNextElement() {
 		parser.next()
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
@@ -1487,11 +1511,11 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 			recursiveSearchWithContextAndOptions(contentParser, targetSeg, segments, segIndex, ctx, depth+1, opts)
 		}
 
-		if ctx.operations >= MaxRecursiveOperations {
+		if ctx.operations >= MaxRecursiveOperations || ctx.done {
 			return
 		}
 
-		if targetSeg.matchesWithOptions(elemName, opts) {
+		if targetSeg.matchesWithOptions(elemName, opts) && ctx.accepts(attrs, content) {
 			if len(*ctx.results) >= MaxWildcardResults {
 				return
 			}
-- 
2.43.0

