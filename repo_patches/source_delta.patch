From b7e862e35c8e8ea2fa8781ffb0bfd49f481698a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 1/9] fix: list contentSchema and vocabulary changes, count
 externalDocs breaking changes of a schema

---
 what-changed/model/schema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 77a497b..2566330 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -180,6 +180,12 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	if s.ContentSchemaChanges != nil {
+		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
+	}
+	if len(s.VocabularyChanges) > 0 {
+		changes = append(changes, s.VocabularyChanges...)
+	}
 	if s.ExternalDocChanges != nil {
 		changes = append(changes, s.ExternalDocChanges.GetAllChanges()...)
 	}
@@ -384,6 +390,9 @@ func (s *SchemaChanges) TotalBreakingChanges() int {
 			}
 		}
 	}
+	if s.ExternalDocChanges != nil {
+		t += s.ExternalDocChanges.TotalBreakingChanges()
+	}
 	if s.XMLChanges != nil {
 		t += s.XMLChanges.TotalBreakingChanges()
 	}
-- 
2.43.0


From 5d80655b94178a837df2ebd9a5a05116879d7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 2/9] fix: count breaking externalDocs changes of a tag

---
 what-changed/model/tags.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/tags.go b/what-changed/model/tags.go
index d839c40..2067e7a 100644
--- a/what-changed/model/tags.go
+++ b/what-changed/model/tags.go
@@ -49,7 +49,11 @@ func (t *TagChanges) TotalChanges() int {
 
 // TotalBreakingChanges returns the number of breaking changes made by Tags
 func (t *TagChanges) TotalBreakingChanges() int {
-	return t.PropertyChanges.TotalBreakingChanges()
+	c := t.PropertyChanges.TotalBreakingChanges()
+	if t.ExternalDocs != nil {
+		c += t.ExternalDocs.TotalBreakingChanges()
+	}
+	return c
 }
 
 // CompareTags will compare a left (original) and a right (new) slice of ValueReference nodes for
-- 
2.43.0


From ca129d6b06d1f33b8a43967c519170f70010402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 3/9] fix: reject an empty name in $components expressions

---
 arazzo/expression/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arazzo/expression/parser.go b/arazzo/expression/parser.go
index ff21655..d4f35e0 100644
--- a/arazzo/expression/parser.go
+++ b/arazzo/expression/parser.go
@@ -227,6 +227,9 @@ func parseComponents(input string) (Expression, error) {
 	if dotIdx == -1 {
 		expr.Name = rest
 	} else {
+		if dotIdx == 0 {
+			return Expression{}, fmt.Errorf("empty name in expression: %q", input)
+		}
 		expr.Name = rest[:dotIdx]
 		expr.Tail = rest[dotIdx+1:]
 	}
-- 
2.43.0


From 00d743a977d7e51dc2c10005d4adb48799b1e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 4/9] fix: schema example changes follow the schema.example
 breaking rule

---
 what-changed/model/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 2566330..2f40d96 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1346,10 +1346,10 @@ func checkSchemaPropertyChanges(
 		rnv = rSchema.Example.ValueNode
 	}
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
-	CheckForModificationWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+	CheckPropertiesWithEncoding([]*PropertyCheck{
+		NewPropertyCheck(CompSchema, PropExample, lnv, rnv,
+			v3.ExampleLabel, changes, lSchema, rSchema),
+	})
 	lnv = nil
 	rnv = nil
 
-- 
2.43.0


From acaf6f2bc94ca10a4b5bc5d7575a1612f873bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 5/9] fix: report bearerFormat changes under bearerFormat, not
 scheme

---
 what-changed/model/security_scheme.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/security_scheme.go b/what-changed/model/security_scheme.go
index 4b6b5d4..16f7747 100644
--- a/what-changed/model/security_scheme.go
+++ b/what-changed/model/security_scheme.go
@@ -166,7 +166,7 @@ func CompareSecuritySchemes(l, r any) *SecuritySchemeChanges {
 			BreakingModified(CompSecurityScheme, PropScheme), CompSecurityScheme, PropScheme)
 
 		addPropertyCheck(&props, lSS.BearerFormat.ValueNode, rSS.BearerFormat.ValueNode,
-			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.SchemeLabel,
+			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, PropBearerFormat,
 			BreakingModified(CompSecurityScheme, PropBearerFormat), CompSecurityScheme, PropBearerFormat)
 
 		addPropertyCheck(&props, lSS.OpenIdConnectUrl.ValueNode, rSS.OpenIdConnectUrl.ValueNode,
-- 
2.43.0


From 84e69668a62227ac86221c38b9a111aef6513156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:53 +0000
Subject: [PATCH 6/9] fix: added and removed examples of headers and media
 types each follow their own breaking rule

---
 what-changed/model/header.go     | 12 +++++-------
 what-changed/model/media_type.go | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index c59a5a1..b105373 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -116,13 +116,11 @@ func addOpenAPIHeaderProperties(left, right low.OpenAPIHeader, changes *[]*Chang
 		BreakingModified(CompHeader, PropExplode), CompHeader, PropExplode)
 
 	// example
-	CheckPropertyAdditionOrRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes,
-		BreakingAdded(CompHeader, PropExample) || BreakingRemoved(CompHeader, PropExample),
-		left.GetExample(), right.GetExample())
-	CheckForModificationWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes, BreakingModified(CompHeader, PropExample),
-		left.GetExample(), right.GetExample())
+	CheckPropertiesWithEncoding([]*PropertyCheck{
+		NewPropertyCheck(CompHeader, PropExample,
+			left.GetExample().ValueNode, right.GetExample().ValueNode,
+			v3.ExampleLabel, changes, left.GetExample(), right.GetExample()),
+	})
 
 	// deprecated
 	addPropertyCheck(&props, left.GetDeprecated().ValueNode, right.GetDeprecated().ValueNode,
diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 3ab5427..633e6b0 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -116,13 +116,11 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes,
-		BreakingAdded(CompMediaType, PropExample) || BreakingRemoved(CompMediaType, PropExample),
-		l.Example.Value, r.Example.Value)
-	CheckForModificationWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes, BreakingModified(CompMediaType, PropExample),
-		l.Example.Value, r.Example.Value)
+	CheckPropertiesWithEncoding([]*PropertyCheck{
+		NewPropertyCheck(CompMediaType, PropExample,
+			l.Example.ValueNode, r.Example.ValueNode,
+			v3.ExampleLabel, &changes, l.Example.Value, r.Example.Value),
+	})
 
 	CheckProperties(props)
 
-- 
2.43.0


From 36cb9f883ba18dc95e324982382ae35ff5915673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:29 +0000
Subject: [PATCH 7/9] fix: a condition operand that is a single quote character
 no longer panics

---
 arazzo/criterion.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arazzo/criterion.go b/arazzo/criterion.go
index c78ec75..713f93a 100644
--- a/arazzo/criterion.go
+++ b/arazzo/criterion.go
@@ -162,8 +162,8 @@ func evaluateSimpleOperand(operand string, exprCtx *expression.Context, caches *
 		return evaluateExprString(op, exprCtx, caches)
 	}
 
-	if (strings.HasPrefix(op, "\"") && strings.HasSuffix(op, "\"")) ||
-		(strings.HasPrefix(op, "'") && strings.HasSuffix(op, "'")) {
+	if len(op) > 1 && ((strings.HasPrefix(op, "\"") && strings.HasSuffix(op, "\"")) ||
+		(strings.HasPrefix(op, "'") && strings.HasSuffix(op, "'"))) {
 		return op[1 : len(op)-1], nil
 	}
 
-- 
2.43.0


From 0c181adcbae7664854fedc24d4e0ead5f7155614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 8/9] fix: split a simple condition at its leftmost operator,
 not inside a quoted operand

---
 arazzo/criterion.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/arazzo/criterion.go b/arazzo/criterion.go
index 713f93a..0037dc2 100644
--- a/arazzo/criterion.go
+++ b/arazzo/criterion.go
@@ -137,19 +137,30 @@ func splitSimpleCondition(input string) (left, op, right string, found bool) {
 		} else {
 			return "", "", "", false
 		}
+	} else if input != "" && (input[0] == '"' || input[0] == '\'') {
+		// operators inside a quoted left operand are part of its text.
+		if closeIdx := strings.IndexByte(input[1:], input[0]); closeIdx >= 0 {
+			searchStart = closeIdx + 2
+		}
 	}
+	// The leftmost operator separates the operands, whatever the right operand
+	// contains; at the same place the longer operator wins (it is listed first).
+	opIdx := -1
 	for _, candidate := range simpleConditionOperators {
-		if idx := strings.Index(input[searchStart:], candidate); idx >= 0 {
-			idx += searchStart
-			left = strings.TrimSpace(input[:idx])
-			right = strings.TrimSpace(input[idx+len(candidate):])
-			if left == "" || right == "" {
-				return "", "", "", false
-			}
-			return left, candidate, right, true
+		if idx := strings.Index(input[searchStart:], candidate); idx >= 0 && (opIdx < 0 || idx < opIdx) {
+			opIdx, op = idx, candidate
 		}
 	}
-	return "", "", "", false
+	if opIdx < 0 {
+		return "", "", "", false
+	}
+	opIdx += searchStart
+	left = strings.TrimSpace(input[:opIdx])
+	right = strings.TrimSpace(input[opIdx+len(op):])
+	if left == "" || right == "" {
+		return "", "", "", false
+	}
+	return left, op, right, true
 }
 
 func evaluateSimpleOperand(operand string, exprCtx *expression.Context, caches *criterionCaches) (any, error) {
-- 
2.43.0


From 860fda913d65eb406a3bdb2f21008c8db5d44999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 9/9] fix: 0 and 1 in a simple condition are numbers

---
 arazzo/criterion.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arazzo/criterion.go b/arazzo/criterion.go
index 0037dc2..b140c0c 100644
--- a/arazzo/criterion.go
+++ b/arazzo/criterion.go
@@ -178,12 +178,13 @@ func evaluateSimpleOperand(operand string, exprCtx *expression.Context, caches *
 		return op[1 : len(op)-1], nil
 	}
 
-	if b, err := strconv.ParseBool(op); err == nil {
-		return b, nil
-	}
+	// numbers first: ParseBool also takes "0" and "1" for truth values.
 	if i, err := strconv.ParseInt(op, 10, 64); err == nil {
 		return i, nil
 	}
+	if b, err := strconv.ParseBool(op); err == nil {
+		return b, nil
+	}
 	if f, err := strconv.ParseFloat(op, 64); err == nil {
 		return f, nil
 	}
-- 
2.43.0

