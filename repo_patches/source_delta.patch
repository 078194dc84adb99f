From 901532ccb93b35b47b51dc6b8fbf8b80f20dee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 01/26] fix: do not take a NUL character for the end of the
 text

The text after a NUL character was silently dropped.
---
 syntax/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..379e749 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,8 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, it never equals to any character of the input (NUL included)
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 544fb35d14ca0eb0074015bbe594264f5ff36197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 02/26] fix: detect mixed bindvar styles when the text starts
 with $n

The style of the first reference was taken for unset when it was Dollar (0).
---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From a34622ee45df72810e134dd332467242e2e4be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 03/26] fix: parse the reference or call that follows a
 function value

'#f?', '#f$1' and '#f#arg' in a #join template took the mark that follows
the function value for plain text.
---
 syntax/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..40be102 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -129,6 +129,16 @@ func (p *parser) funcExpr() error {
 	nameToken := p.token
 	p.NextToken()
 	switch p.token.typ {
+	case _Ref, _Hash:
+		// not a part of the function value
+		p.tokens = append([]*token{p.token}, p.tokens...)
+		p.c.ExprList = append(
+			p.c.ExprList,
+			&FuncExpr{
+				Name: nameToken.lit,
+				expr: expr{node{pos}},
+			},
+		)
 	case _Lparen:
 		args := make([]any, 0)
 		for {
-- 
2.43.0


From 70643e9095888172a8a4cb2dd0a7debbde6d19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 04/26] fix: accept args that are not comparable in dollar
 style

Building with a []byte (or any other unhashable) arg panicked, or failed
when the arg was referenced by #arg or #join.
---
 context_args.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..65a088d 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,26 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
+	i, ok, hashable := s.lookup(arg)
+	if ok {
 		return "$" + strconv.Itoa(i)
 	}
-	i := len(s.args) + 1
-	s.dict[arg] = i
+	i = len(s.args) + 1
+	if hashable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// lookup finds the index of an equal arg. Args which cannot be map keys
+// ([]byte for example) are reported as not hashable, they are never shared.
+func (s *dollarArgStore) lookup(arg any) (i int, ok, hashable bool) {
+	defer func() {
+		if recover() != nil {
+			i, ok, hashable = 0, false, false
+		}
+	}()
+	i, ok = s.dict[arg]
+	return i, ok, true
+}
-- 
2.43.0


From 4c3470b2b82935915067accf92bb3a0d632ab56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 05/26] fix: report numbers passed to string or bool parameters
 as errors

'#join(1,2)' panicked or passed a character.
---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From d056e58273a367aafb29ec1309f37f467cbaea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 06/26] fix: call functions whose parameters are named string
 or bool types

They can be registered, but every call of them failed.
---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -122,12 +122,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From 536239c8f29735cac27a97def6e1639384db8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 07/26] fix: #join does not drop elements that fail with an
 invalid index inside

An element of #join whose own text had an invalid #arg or #f reference
ended the #join, the element and those after it were silently left out.
---
 func_builtin.go |  9 ++++++++-
 properties.go   | 16 +++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..9bcd974 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -70,7 +70,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		if endOfProperties(err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -94,6 +94,13 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// endOfProperties reports whether err says that an index is out of range,
+// an ErrInvalidIndex from the inside of a property doesn't count.
+func endOfProperties(err error) bool {
+	var inner *propertyError
+	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner)
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
diff --git a/properties.go b/properties.go
index cde4a8a..4568f2f 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,21 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	s, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &propertyError{err}
+	}
+	return s, nil
+}
+
+// propertyError is an error of building a property.
+type propertyError struct {
+	error
+}
+
+// Unwrap returns the wrapped error.
+func (e *propertyError) Unwrap() error {
+	return e.error
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From 200f06b0b634410c771869fedc0fe49e7a448e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 08/26] fix: report invalid references with a fixed index in
 #join templates

'#join(''#f #arg9'', '','')' silently built nothing when there is no arg 9.
---
 build.go        | 13 ++++++++++++-
 func_builtin.go | 23 ++++++++++++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..a7528f5 100644
--- a/build.go
+++ b/build.go
@@ -91,7 +91,7 @@ func buildClause(ctx *Context, clause *syntax.Clause) (string, error) {
 		case *syntax.FuncCallExpr:
 			s, err := evalFunction(ctx, expr.Name, expr.Args)
 			if err != nil {
-				return "", err
+				return "", &callError{err, expr}
 			}
 			b.WriteString(s)
 		case *syntax.FuncExpr:
@@ -102,3 +102,14 @@ func buildClause(ctx *Context, clause *syntax.Clause) (string, error) {
 	}
 	return b.String(), nil
 }
+
+// callError is an error of evaluating a function call.
+type callError struct {
+	error
+	call *syntax.FuncCallExpr
+}
+
+// Unwrap returns the wrapped error.
+func (e *callError) Unwrap() error {
+	return e.error
+}
diff --git a/func_builtin.go b/func_builtin.go
index 9bcd974..4776f13 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -70,7 +70,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		s, err := buildClause(ctx, c)
-		if endOfProperties(err) {
+		if endOfProperties(calls, err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -94,11 +94,24 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
-// endOfProperties reports whether err says that an index is out of range,
-// an ErrInvalidIndex from the inside of a property doesn't count.
-func endOfProperties(err error) bool {
+// endOfProperties reports whether err says that the index applied to the calls
+// is out of range, an ErrInvalidIndex from the inside of a property, or from
+// another call of the template, doesn't count.
+func endOfProperties(calls []*syntax.FuncCallExpr, err error) bool {
 	var inner *propertyError
-	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner)
+	if !errors.Is(err, ErrInvalidIndex) || errors.As(err, &inner) {
+		return false
+	}
+	var failed, nested *callError
+	if !errors.As(err, &failed) || errors.As(failed.error, &nested) {
+		return false
+	}
+	for _, call := range calls {
+		if failed.call == call {
+			return true
+		}
+	}
+	return false
 }
 
 func funcArg(ctx *Context, i int) (string, error) {
-- 
2.43.0


From ab0a73e88a7d9254e21dfbab84b13724acd3a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 09/26] fix: #join leaves no trace of an incomplete last item

When the template has more than one function and their lists have different
lengths, the args of the item that was given up stayed in the args of the
query, without a placeholder.
---
 context_args.go | 15 +++++++++++++++
 func_builtin.go | 11 +++++++++++
 properties.go   | 15 +++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/context_args.go b/context_args.go
index 65a088d..c798199 100644
--- a/context_args.go
+++ b/context_args.go
@@ -20,6 +20,8 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// truncate drops the args committed after the first n.
+	truncate(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +41,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) truncate(n int) {
+	s.args = s.args[:n:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -67,6 +73,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) truncate(n int) {
+	for arg, i := range s.dict {
+		if i > n {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n:n]
+}
+
 // lookup finds the index of an equal arg. Args which cannot be map keys
 // ([]byte for example) are reported as not hashable, they are never shared.
 func (s *dollarArgStore) lookup(arg any) (i int, ok, hashable bool) {
diff --git a/func_builtin.go b/func_builtin.go
index 4776f13..e12226f 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -61,6 +61,11 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	if len(calls) == 0 {
 		return "", fmt.Errorf("no function in join template '%s' (e.g.: #f, not #f1)", tmpl)
 	}
+	fc, err := ctx.mustFragment()
+	if err != nil {
+		return "", err
+	}
+	store := ctx.root().argStore
 	start := from
 	if start <= 0 {
 		start = 1
@@ -69,6 +74,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
+		nArgs := len(store.Args())
+		unuseArgs, unuseFragments := fc.Args.snapshot(), fc.Fragments.snapshot()
 		s, err := buildClause(ctx, c)
 		if endOfProperties(calls, err) {
 			if (from > 0 && i == from) ||
@@ -76,6 +83,10 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// what the incomplete item committed and used is not in the output
+			store.truncate(nArgs)
+			unuseArgs()
+			unuseFragments()
 			break
 		}
 		if err != nil {
diff --git a/properties.go b/properties.go
index 4568f2f..1861876 100644
--- a/properties.go
+++ b/properties.go
@@ -42,6 +42,21 @@ func (p Properties) checkUsage() error {
 	return nil
 }
 
+// snapshot returns a function which takes back the usages reported since now.
+func (p Properties) snapshot() (restore func()) {
+	var unused []*defaultProperty
+	for _, prop := range p {
+		if d, ok := prop.(*defaultProperty); ok && !d.used {
+			unused = append(unused, d)
+		}
+	}
+	return func() {
+		for _, d := range unused {
+			d.used = false
+		}
+	}
+}
+
 // NewFragmentProperties creates new properties from FragmentBuilder.
 // It's useful for creating global fragment properties shared between fragments,
 // see examples for ContextWithFuncs() for how to use it.
-- 
2.43.0


From 596b04872600790c110b5e7d479d97f73ff1407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 10/26] fix: AppendArgs and AppendFragments do not write into
 the caller's slice

Two fragments created from one slice with spare capacity overwrote each
other's appended elements.
---
 fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..21bb32f 100644
--- a/fragment.go
+++ b/fragment.go
@@ -36,12 +36,12 @@ func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
 
 // AppendArgs appends args to f.
 func (f *Fragment) AppendArgs(args ...any) *Fragment {
-	f.Args = append(f.Args, args...)
+	f.Args = append(f.Args[:len(f.Args):len(f.Args)], args...)
 	return f
 }
 
 // AppendFragments appends fragments to f.
 func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = append(f.Fragments, fragments...)
+	f.Fragments = append(f.Fragments[:len(f.Fragments):len(f.Fragments)], fragments...)
 	return f
 }
-- 
2.43.0


From c5ec5666cc9faa94c6e8e2b4168d40aaf3cf57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 11/26] fix: joins without ON condition do not panic, and leave
 the condition as it is

CrossJoin() always panicked, so did the other joins with a nil condition. The
prefix of the caller's fragment was overwritten.
---
 sqlb/query_builder_dependecy.go | 3 +++
 sqlb/query_builder_join.go      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..7a2059e 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -91,6 +91,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
+			if fragment == nil {
+				continue
+			}
 			extractTables2(fragment.Fragments, tables, dict)
 			continue
 		}
diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..1d2e23b 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -103,7 +103,7 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			sqlf.Ff("#f1", on).WithPrefix("ON"),
 		),
 		Optional: optional,
 	}
-- 
2.43.0


From 49cd005396326b5b49244cab6d1ce312cf457fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 12/26] fix: building with an expression column of a nil
 fragment does not panic

---
 sqlb/query_builder_dependecy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 7a2059e..ba8e134 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -102,7 +102,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From aeba1a3b7254f53432c3d1ceed5f089b10e07301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 13/26] fix: report a missing from table

Building panicked without From(), or built a FROM clause without main table
if there were joins only.
---
 sqlb/query_builder_dependecy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index ba8e134..efa91fc 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -1,6 +1,7 @@
 package sqlb
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/qjebbs/go-sqlf/v2"
@@ -18,6 +19,9 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 		builders = append(builders, order.column)
 	}
 
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, errors.New("no from table")
+	}
 	tables := extractTables(builders...)
 	deps := make(map[TableAliased]bool)
 	// first table is the main table and always included
-- 
2.43.0


From 180da51fe05b565d9e34685ba1dcd8f9479b71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 14/26] fix: building a query builder does not change it

Every build of a DISTINCT query with orders selected the order columns once
more, and an invalid order was left out silently by the first build.
---
 sqlb/query_builder.go           |  3 +--
 sqlb/query_builder_build.go     | 15 +++++----------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 16 +++++++++-------
 4 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..24f3dba 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
@@ -50,6 +48,7 @@ func NewQueryBuilder() *QueryBuilder {
 // Distinct set the flag for SELECT DISTINCT.
 func (b *QueryBuilder) Distinct() *QueryBuilder {
 	b.distinct = true
+	b.selects.WithPrefix("SELECT DISTINCT")
 	return b
 }
 
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..d618333 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,8 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	orders, touches := b.orderFragments()
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +95,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -145,17 +145,12 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
-	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
-	} else {
-		b.selects.Prefix = "SELECT"
-	}
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderColumns *sqlf.Fragment) (string, error) {
 	sel, err := b.selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := orderColumns.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index efa91fc..00918f4 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -11,7 +11,6 @@ import (
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..5d7db87 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -35,17 +35,19 @@ type orderItem struct {
 
 // OrderBy set the sorting order. the order can be "ASC", "DESC", "ASC NULLS FIRST" or "DESC NULLS LAST"
 func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
+	if order > DescNullsLast {
+		b.pushError(fmt.Errorf("invalid order: %d", order))
+		return b
+	}
 	b.orders = append(b.orders, &orderItem{column: column, order: order})
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
+// orderFragments returns the ORDER BY clause, and the columns to select for it.
+func (b *QueryBuilder) orderFragments() (clause, touches *sqlf.Fragment) {
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
-		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
-		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
 				"#f1 "+orders[item.order],
@@ -56,10 +58,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f, touches
 }
-- 
2.43.0


From 5e452f5ca05fe801e5f595084ef0c195682e71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 15/26] fix: args of the select clause come before those of the
 later clauses

The select clause was built last, so the args of '?' queries did not match
their placeholders.
---
 sqlb/query_builder_build.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index d618333..3767c48 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	orders, touches := b.orderFragments()
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,7 +84,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	orders, touches := b.orderFragments()
 	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
@@ -95,11 +97,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	sel, err := b.buildSelects(ctx, touches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
-- 
2.43.0


From d9583cdecced646422cf5a168dd1017481bc11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 16/26] fix: keep optional joins that the condition of a kept
 join refers to

An optional join was eliminated from DISTINCT queries even if the ON
condition of another, not optional join needs its table.
---
 sqlb/query_builder_dependecy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 00918f4..f08011b 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -25,6 +25,12 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	deps := make(map[TableAliased]bool)
 	// first table is the main table and always included
 	deps[b.tables[0].Names] = true
+	// tables which are never eliminated need what their conditions refer to
+	for _, t := range b.tables[1:] {
+		if !b.distinct || !t.Optional {
+			tables = append(tables, t.Names.AppliedName())
+		}
+	}
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-- 
2.43.0


From 07940f784455315d346f3ee9e4e14c6ad6c9e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 17/26] fix: collect the dependencies of CTEs that are selected
 without alias

The dependency of a FROM table without alias was taken for the one of the
CTE of the same name, so the CTEs it depends on were missing.
---
 sqlb/query_builder_build.go     | 2 +-
 sqlb/query_builder_dependecy.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 3767c48..f92d739 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -121,7 +121,7 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep[cteKey(cte.name)] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index f08011b..380b943 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -50,7 +50,7 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 }
 
 func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
+	key := cteKey(cte.name)
 	if deps[key] {
 		return nil
 	}
@@ -66,6 +66,12 @@ func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte)
 	return nil
 }
 
+// cteKey returns the key of the CTE in the dependencies. It has no name,
+// so that it never equals to a from table.
+func cteKey(name Table) TableAliased {
+	return NewTableAliased("", name)
+}
+
 func (b *QueryBuilder) collectDepsFromTable(dep map[TableAliased]bool, t Table) error {
 	from, ok := b.tablesDict[t]
 	if !ok {
-- 
2.43.0


From 4470f7fd59a621f22b34657cdf7ab09820c41969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 18/26] fix: forget the main table that is replaced by another
 From()

References to the replaced table were accepted, and a join of its name
went into nowhere.
---
 sqlb/query_builder_join.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 1d2e23b..89a2fab 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -24,6 +24,9 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		if old := b.tables[0].Names.AppliedName(); b.tablesDict[old] == b.tables[0] {
+			delete(b.tablesDict, old)
+		}
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
-- 
2.43.0


From 450cb591862082a6824dd6b78cce67a6183b835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 19/26] fix: no UNION clause if all union parts are empty

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index f92d739..7c3c309 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -187,5 +187,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 3e75ee00a0c218631beb6452edaa79d78e79fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 20/26] fix: report a join that has the name of the from table

It replaced the from table, 'FROM INNER JOIN foo ...' was built.
---
 sqlb/query_builder_join.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 89a2fab..cf6f2d6 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -111,6 +111,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("table '%s' is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 0fa1ba31ac68f65469af4bbf2a7089758b971fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 21/26] fix: Interpolate reports placeholders without argument

It panicked, and so did Count when the database returned an error.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..61d8e2c 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: no argument for bindvar %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From e25e6f62f1378e5f43d78d35cb00d21cafc1ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 22/26] fix: Interpolate takes nil pointers of Valuers and
 Stringers as NULL

It panicked if the method is defined on the value, database/sql passes NULL.
---
 util/interpolate.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 61d8e2c..5248392 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -71,6 +71,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
+	if isNilReceiver(arg) {
+		arg = nil
+	}
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
@@ -120,6 +123,22 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// isNilReceiver tells if arg is a nil pointer whose methods are defined on the
+// value, so that they cannot be called.
+func isNilReceiver(arg any) bool {
+	v := reflect.ValueOf(arg)
+	if v.Kind() != reflect.Pointer || !v.IsNil() {
+		return false
+	}
+	elem := v.Type().Elem()
+	return elem.Implements(valuerType) || elem.Implements(stringerType)
+}
+
+var (
+	valuerType   = reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+	stringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
+)
+
 func quoteStringValue(s string) []byte {
 	buf := bytes.NewBuffer(nil)
 	buf.WriteRune('\'')
-- 
2.43.0


From e0644824f7c92b7d6cb5d2690102363c88d1e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 23/26] fix: ArgsFlatted takes nil pointers to lists as empty
 lists

A nil *[]int and the like panicked, other nil pointers to lists were passed
on as an argument.
---
 util/args.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/util/args.go b/util/args.go
index b685cd5..f8fd041 100644
--- a/util/args.go
+++ b/util/args.go
@@ -21,6 +21,9 @@ func ArgsFlatted(valueOrSlices ...any) []any {
 }
 
 func argsFrom(v any) []any {
+	if isNilList(v) {
+		return nil
+	}
 	switch a := v.(type) {
 	case []any:
 		return a
@@ -69,6 +72,16 @@ func argsFrom(v any) []any {
 	}
 }
 
+// isNilList tells if v is a nil pointer to a slice or an array.
+func isNilList(v any) bool {
+	rv := reflect.ValueOf(v)
+	if rv.Kind() != reflect.Pointer || !rv.IsNil() {
+		return false
+	}
+	k := rv.Type().Elem().Kind()
+	return k == reflect.Slice || k == reflect.Array
+}
+
 // Ttoa is a help func to convert a slice to []any.
 func Ttoa[T any](slice []T) []any {
 	if len(slice) == 0 {
-- 
2.43.0


From f4a92c82799dd3702101ded0f7349387d23c96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 24/26] fix: Scan reports errors of the row iteration

Rows that could not be read were silently missing from the results.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 66e8b98bf0a99e8ee0cc3b6ca0680f6868024b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 25/26] fix: ContextWithFuncs returns no context with a part of
 the functions

---
 context_func.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/context_func.go b/context_func.go
index 8c12f80..1f14896 100644
--- a/context_func.go
+++ b/context_func.go
@@ -2,9 +2,14 @@ package sqlf
 
 // ContextWithFuncs returns a new context with the preprocessing functions added.
 func ContextWithFuncs(c *Context, funcs FuncMap) (*Context, error) {
+	infos, err := createValueFuncs(funcs)
+	if err != nil {
+		// not the context with some of the functions
+		return nil, err
+	}
 	return contextWith(c, func(c *Context) error {
-		c.funcs = make(map[string]*funcInfo)
-		return addValueFuncs(c.funcs, funcs)
+		c.funcs = infos
+		return nil
 	})
 }
 
-- 
2.43.0


From 2424c4e01bd54f83e6a731a92cef86e7980c069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:08 +0000
Subject: [PATCH 26/26] fix: names of tables and columns are not the text of a
 fragment

A table '#temp' or 'v$session', or a column with such a name, was parsed as a
function call or a bind var, so that every query with it failed to build.
---
 sqlb/query_builder_join.go |  5 +++--
 sqlb/table.go              | 13 +++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index cf6f2d6..7036f26 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -18,7 +18,7 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	}
 	table := &fromTable{
 		Names:    t,
-		Fragment: sqlf.F(tableAndAlias),
+		Fragment: sqlf.Ff("#f1", identifier(tableAndAlias)),
 		Optional: false,
 	}
 	if len(b.tables) == 0 {
@@ -105,7 +105,8 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	table := &fromTable{
 		Names: t,
 		Fragment: sqlf.Ff(
-			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
+			joinStr+" #f1 #f2",
+			identifier(tableAndAlias),
 			sqlf.Ff("#f1", on).WithPrefix("ON"),
 		),
 		Optional: optional,
diff --git a/sqlb/table.go b/sqlb/table.go
index 462170c..f715958 100644
--- a/sqlb/table.go
+++ b/sqlb/table.go
@@ -25,11 +25,20 @@ func (t Table) BuildFragment(_ *sqlf.Context) (query string, err error) {
 //	t.Column("id")  // "t.id"
 func (t Table) Column(name string) *Column {
 	return &Column{
-		fragment: sqlf.F(preBuildColumn(t, name)),
+		fragment: sqlf.Ff("#f1", identifier(preBuildColumn(t, name))),
 		table:    t,
 	}
 }
 
+// identifier renders as is. Unlike the text of a fragment, names may have
+// characters like '#', '$' and '?', e.g.: "#temp", "v$session".
+type identifier string
+
+// BuildFragment implements FragmentBuilder
+func (i identifier) BuildFragment(_ *sqlf.Context) (query string, err error) {
+	return string(i), nil
+}
+
 func preBuildColumn(t Table, name string) string {
 	if name == "" {
 		return ""
@@ -62,7 +71,7 @@ func (t Table) Columns(names ...string) []*Column {
 //	t.AnonymousColumn("id")  // "id"
 func (t Table) AnonymousColumn(name string) *Column {
 	return &Column{
-		fragment: sqlf.F(name),
+		fragment: sqlf.Ff("#f1", identifier(name)),
 		table:    t,
 	}
 }
-- 
2.43.0

