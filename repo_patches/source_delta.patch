From cd4f9e89f6ea605b60424e4d610b5d8c720d5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 01/35] fix: synchronise dynamic template cache and key it by
 scope and type

The cache was read without holding its lock, and its key was the text only, so
a scope could be given a plan compiled for another scope, or for its own
variables before they were changed.
---
 cache.go    | 39 ++++++++++++++++++++++++---------------
 evaluate.go |  5 +++--
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..30153e6 100644
--- a/cache.go
+++ b/cache.go
@@ -2,17 +2,25 @@ package velty
 
 import (
 	"github.com/viant/velty/est"
+	"reflect"
 	"sync"
 )
 
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
-		values    []*value
+		cache     map[cacheKey]*value
 		locker    sync.Locker
 	}
 
+	//cacheKey identifies compiled template, the same text can compile differently in various scopes,
+	//or in the same scope after its variables have changed
+	cacheKey struct {
+		text  string
+		scope *Planner
+		rType reflect.Type
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,22 +29,25 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]*value{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
-	val, ok := c.cache[name]
-	if !ok {
-		return nil, false
-	}
+func newCacheKey(text string, scope *Planner) cacheKey {
+	return cacheKey{text: text, scope: scope, rType: scope.Type.Type}
+}
 
-	return c.values[val], ok
+func (c *cache) expression(key cacheKey) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
+	val, ok := c.cache[key]
+	return val, ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
 	if c.cacheSize == 0 {
 		return
 	}
@@ -45,16 +56,14 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 	defer c.locker.Unlock()
 	c.cleanCacheIfNeeded()
 
-	c.values = append(c.values, &value{
+	c.cache[key] = &value{
 		planner: planner,
 		compute: compute,
-	})
-	c.cache[name] = len(c.values) - 1
+	}
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
-		c.values = c.values[:0]
+		c.cache = map[cacheKey]*value{}
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..1c52558 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -16,7 +16,8 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
+	key := newCacheKey(varValue, e.parent)
+	if cacheValue, ok := e.cache.expression(key); ok {
 		newState := e.newState(cacheValue.planner, state)
 		return cacheValue.compute(newState)
 	}
@@ -33,7 +34,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	}
 
 	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	e.cache.put(key, evaluatorPlanner, exec)
 
 	return exec(newState)
 }
-- 
2.43.0


From 12213903ebb0aa8a717e29de9ae52346ece31522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 02/35] fix: keep at most CacheSize compiled dynamic templates

---
 cache.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache.go b/cache.go
index 30153e6..f1b54a1 100644
--- a/cache.go
+++ b/cache.go
@@ -48,13 +48,15 @@ func (c *cache) expression(key cacheKey) (*value, bool) {
 }
 
 func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
-	if c.cacheSize == 0 {
+	if c.cacheSize <= 0 {
 		return
 	}
 
 	c.locker.Lock()
 	defer c.locker.Unlock()
-	c.cleanCacheIfNeeded()
+	if _, ok := c.cache[key]; !ok {
+		c.cleanCacheIfNeeded()
+	}
 
 	c.cache[key] = &value{
 		planner: planner,
@@ -63,7 +65,7 @@ func (c *cache) put(key cacheKey, planner *Planner, compute est.Compute) {
 }
 
 func (c *cache) cleanCacheIfNeeded() {
-	if len(c.cache) > c.cacheSize {
+	if len(c.cache) >= c.cacheSize {
 		c.cache = map[cacheKey]*value{}
 	}
 }
-- 
2.43.0


From 55b9225c6950d9d737059278a96060863381a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 03/35] fix: child scopes inherit the panic-on-error option

---
 planner.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/planner.go b/planner.go
index 68b0354..79aa272 100644
--- a/planner.go
+++ b/planner.go
@@ -448,14 +448,15 @@ func New(options ...Option) *Planner {
 
 func (p *Planner) New() *Planner {
 	scope := &Planner{
-		bufferSize: p.bufferSize,
-		Control:    p.Control,
-		Type:       p.Type.Snapshot(),
-		selectors:  p.selectors.Snapshot(),
-		constants:  p.constants,
-		Functions:  p.Functions,
-		cache:      p.cache,
-		escapeHTML: p.escapeHTML,
+		bufferSize:   p.bufferSize,
+		Control:      p.Control,
+		Type:         p.Type.Snapshot(),
+		selectors:    p.selectors.Snapshot(),
+		constants:    p.constants,
+		Functions:    p.Functions,
+		cache:        p.cache,
+		escapeHTML:   p.escapeHTML,
+		panicOnError: p.panicOnError,
 	}
 
 	return scope
-- 
2.43.0


From 118406a1f4af30254618e66c1f3e50e7774b8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 04/35] fix: give each scope its own constants

The map was shared by all scopes without synchronisation, and grew with every
dynamic template that was ever compiled.
---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index 79aa272..7fa6a14 100644
--- a/planner.go
+++ b/planner.go
@@ -452,7 +452,7 @@ func (p *Planner) New() *Planner {
 		Control:      p.Control,
 		Type:         p.Type.Snapshot(),
 		selectors:    p.selectors.Snapshot(),
-		constants:    p.constants,
+		constants:    newConstants(),
 		Functions:    p.Functions,
 		cache:        p.cache,
 		escapeHTML:   p.escapeHTML,
-- 
2.43.0


From e60d3bf1c4ef057c83a58789d2342d7c84268ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 05/35] fix: do not share the counter of reserved names between
 scopes

Scopes updated the counter concurrently, and every compilation of a template
used new names, hence created a new struct type, which is never released.
---
 est/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/est/type.go b/est/type.go
index 9137ef1..a815a08 100644
--- a/est/type.go
+++ b/est/type.go
@@ -110,12 +110,13 @@ func (t *Type) Snapshot() *Type {
 		anonymousFields[key] = t.anonymousFields[key]
 	}
 
+	transients := *t.transients
 	return &Type{
 		Type:            t.Type,
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
-- 
2.43.0


From cf41e6cf63cbc344fb7b51c203a4387ae0b42ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 06/35] fix: synchronise function receivers shared by scopes

Compiling in a scope, which includes evaluating dynamic templates, updates the
receivers index that all scopes share.
---
 est/op/func.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..8fb8498 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -28,9 +29,10 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
-		functions map[string]*Function
-		ns        map[string]interface{}
+		receiversMux sync.Mutex //guards receivers, which are shared by all scopes, and updated while compiling
+		receivers    map[string]*funcReceiver
+		functions    map[string]*Function
+		ns           map[string]interface{}
 	}
 
 	funcReceiver struct {
@@ -426,6 +428,9 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 		return f.funcs[index], nil
 	}
 
+	f.receiversMux.Lock()
+	defer f.receiversMux.Unlock()
+
 	receiver := f.ensureReceiver(rType)
 	if aFunc, ok := receiver.aFunc(id); ok {
 		return aFunc, nil
@@ -435,8 +440,10 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 }
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
-	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	f.receiversMux.Lock()
+	defer f.receiversMux.Unlock()
+
+	receiver := f.ensureReceiver(receiverType)
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -864,6 +871,9 @@ func (f *Functions) RegisterStandaloneFunction(name string, function *Function)
 }
 
 func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFunc) error {
+	f.receiversMux.Lock()
+	defer f.receiversMux.Unlock()
+
 	receiver := f.ensureReceiver(receiverType)
 	_, ok := receiver.index[typeFunc.Name]
 	if ok {
-- 
2.43.0


From ff34635d7e733b2ad2fced5bc0d69d143a47274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 07/35] fix: tell apart receivers of different types with the
 same name

---
 est/op/func.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 8fb8498..fd92c46 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -30,7 +30,7 @@ type (
 		funcs         []*Func
 
 		receiversMux sync.Mutex //guards receivers, which are shared by all scopes, and updated while compiling
-		receivers    map[string]*funcReceiver
+		receivers    map[reflect.Type]*funcReceiver
 		functions    map[string]*Function
 		ns           map[string]interface{}
 	}
@@ -283,7 +283,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -889,7 +889,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -900,14 +900,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From bc94cfcedc8be47d4599864a2eeec21c0498b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 08/35] fix: report errors raised while evaluating dynamic
 templates

---
 evaluate.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index 1c52558..4d5d29e 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -18,8 +18,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
 	key := newCacheKey(varValue, e.parent)
 	if cacheValue, ok := e.cache.expression(key); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+		return e.exec(cacheValue.planner, cacheValue.compute, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
@@ -33,10 +32,17 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 		return est.EmptyStringPtr
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
 	e.cache.put(key, evaluatorPlanner, exec)
 
-	return exec(newState)
+	return e.exec(evaluatorPlanner, exec, state)
+}
+
+func (e *evaluator) exec(planner *Planner, compute est.Compute, state *est.State) unsafe.Pointer {
+	newState := e.newState(planner, state)
+	ret := compute(newState)
+	state.Errors = append(state.Errors, newState.Errors...)
+
+	return ret
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
@@ -47,6 +53,7 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	}
 
 	newState.Buffer = state.Buffer
+	newState.PanicOnError = state.PanicOnError
 	return newState
 }
 
-- 
2.43.0


From 6045b65641cc4bb24a444d2fa72ffc4ca504e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 09/35] fix: do not access variables defined after a state was
 created

Planner may define variables or compile templates after creating a state, the
memory of the state does not hold them.
---
 est/state.go | 10 ++++++++--
 evaluate.go  |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/est/state.go b/est/state.go
index c86d84e..89d7959 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,6 +2,7 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
 	"strings"
 	"sync"
@@ -22,7 +23,7 @@ type State struct {
 
 func (s *State) SetValue(k string, v interface{}) error {
 	xField, ok := s.StateType.ValueAccessor(k)
-	if !ok {
+	if !ok || !s.Contains(xField) {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
@@ -53,7 +54,7 @@ func (s *State) EmbedValue(v interface{}) error {
 	}
 
 	xField, ok := s.StateType.ValueAccessor(holderName)
-	if !ok {
+	if !ok || !s.Contains(xField) {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
@@ -67,6 +68,11 @@ func (s *State) EmbedValue(v interface{}) error {
 	return nil
 }
 
+//Contains returns true if the state holds given field, StateType may have been extended after the state was created.
+func (s *State) Contains(field *xunsafe.Field) bool {
+	return field.Offset+field.Type.Size() <= reflect.TypeOf(s.Mem).Elem().Size()
+}
+
 func (s *State) Reset() {
 	s.Lock()
 	defer s.Unlock()
diff --git a/evaluate.go b/evaluate.go
index 4d5d29e..a2fdb16 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -49,6 +49,9 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
+		if !state.Contains(valueAccessor) { //defined after state was created
+			continue
+		}
 		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
 	}
 
-- 
2.43.0


From e66454199950f9f1bcf55c74d6c43f6e722bf221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 10/35] fix: do not modify shared zero values when assigning
 through nil

Assigning to a field of a nil pointer overwrote the zero value that all
planners of the process render for missing data.
---
 est/op/expr.go            | 12 +++++++++---
 est/op/upstream.go        | 15 +++++++++++++--
 est/stmt/assign/assign.go |  2 +-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..3b45acf 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+//Assignable indicates that operand is a destination of an assignment
+type Assignable bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var assignable bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case Assignable:
+			assignable = bool(actual)
 		}
 	}
 
@@ -50,7 +56,7 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast, assignable)
 		}
 
 		return operand, nil
@@ -87,8 +93,8 @@ func (e Expressions) Operands(control est.Control, shouldDerefLast bool) ([]*Ope
 	return result, nil
 }
 
-func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool) est.Compute {
-	upstream := Upstream(e.Selector, shouldDerefLast, refLast)
+func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool, assignable bool) est.Compute {
+	upstream := newUpstream(e.Selector, shouldDerefLast, refLast, assignable)
 	return func(state *est.State) unsafe.Pointer {
 		ret := upstream(state)
 		return ret
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..05c24ce 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,10 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	return newUpstream(selector, derefLast, refLast, false)
+}
+
+func newUpstream(selector *Selector, derefLast bool, refLast bool, assignable bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -45,12 +49,19 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 		zeroValuePtr = xunsafe.AsPointer(value)
 	}
 
+	zeroValue := func() unsafe.Pointer {
+		if assignable { // zero values are shared by all readers, they must not be modified
+			return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
+		}
+		return zeroValuePtr
+	}
+
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return zeroValue()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +103,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return zeroValue()
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..153f35f 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -245,7 +245,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.Assignable(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 189663a084a83b7789f21103fdb78ff08724740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/35] fix: evaluate dynamic templates while interface
 variables are nil

---
 evaluate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evaluate.go b/evaluate.go
index a2fdb16..4997e33 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -52,7 +52,11 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 		if !state.Contains(valueAccessor) { //defined after state was created
 			continue
 		}
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+		value := valueAccessor.Value(state.MemPtr)
+		if value == nil { //interface that was not set
+			continue
+		}
+		valueAccessor.SetValue(newState.MemPtr, value)
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From 5b540cdb0c4e290ee32e23bd84dd0c56ee47321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 12/35] fix: index slices and values held by interfaces safely

A negative index, an index into a slice held by an interface or into a slice
held by a map read memory outside of the slice; indexing an interface holding
neither a map nor a slice did so as well, or panicked if it was nil.
---
 est/op/iface.go |  6 ++++--
 est/op/map.go   |  6 ++++--
 est/op/slice.go | 24 +++++++++++++++++++-----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..e993c95 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -17,10 +17,12 @@ func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	asInterface := xunsafe.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch actualValue.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice, reflect.Array:
+		return i.aSlice.execInterface(actualValue, state)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		return nil
 	}
 }
diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..00265a4 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -39,8 +39,10 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
-		return xunsafe.AsPointer(actualValue.Pointer())
+	case reflect.Map:
+		mapPtr := reflect.New(actualValue.Type())
+		mapPtr.Elem().Set(actualValue)
+		return unsafe.Pointer(mapPtr.Pointer())
 	default:
 		return xunsafe.AsPointer(iface)
 	}
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..c308fed 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/xunsafe"
 	"github.com/viant/xunsafe/converter"
+	"reflect"
 	"unsafe"
 )
 
@@ -16,18 +17,31 @@ type Slice struct {
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	sliceLen := s.XSlice.Len(slicePtr)
-
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
 		return nil
 	}
 
 	index := *(*int)(indexPtr)
-	if sliceLen <= index {
-		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
+	ensureInRange(index, s.XSlice.Len(slicePtr))
+	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
+
+//execInterface returns item of a slice held by an interface
+func (s *Slice) execInterface(slice reflect.Value, state *est.State) unsafe.Pointer {
+	indexPtr := s.IndexOperand.Exec(state)
+	if indexPtr == nil {
+		return nil
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	index := *(*int)(indexPtr)
+	ensureInRange(index, slice.Len())
+	item := slice.Index(index).Interface()
+	return unsafe.Pointer(&item)
+}
 
+func ensureInRange(index, length int) {
+	if index < 0 || length <= index {
+		panic(fmt.Sprintf("index out of range [%v] with length %v", index, length))
+	}
 }
-- 
2.43.0


From 41c0ee7052af67ab514e9553331c3f945bcde2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 13/35] fix: loop over the slice a foreach started with

The body of a loop can assign a shorter slice to the iterated variable, the loop
then read memory behind it.
---
 est/stmt/foreach.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..af82cc9 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -18,7 +18,7 @@ type ForEach struct {
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := snapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -32,7 +32,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := snapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -46,7 +46,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -60,7 +60,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := snapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
@@ -73,7 +73,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
-	xPtr := *e.X.LiteralPtr
+	xPtr := snapshot(*e.X.LiteralPtr)
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -86,6 +86,12 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//snapshot copies a slice header, the loop body can assign other, shorter slice to the iterated variable
+func snapshot(slicePtr unsafe.Pointer) unsafe.Pointer {
+	header := *(*[]byte)(slicePtr)
+	return unsafe.Pointer(&header)
+}
+
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		aSlice, err := sliceExpr.Operand(control)
-- 
2.43.0


From 0a1aac23528fd555320a3a97503bf94d2a530ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 14/35] fix: write only the memory of the value being set

Setting a variable of a type smaller than a word (bool, int8, int16, int32,
uint8...) wrote eight bytes and overwrote neighbouring variables, arrays were
copied partially.
---
 est/field.go        | 44 ++++++++++++++++++++++++++++++++++++++++++++
 est/op/func.go      |  2 +-
 est/state.go        | 21 +++++++++------------
 est/stmt/foreach.go | 10 +++++-----
 evaluate.go         |  2 +-
 5 files changed, 60 insertions(+), 19 deletions(-)
 create mode 100644 est/field.go

diff --git a/est/field.go b/est/field.go
new file mode 100644
index 0000000..db8a729
--- /dev/null
+++ b/est/field.go
@@ -0,0 +1,44 @@
+package est
+
+import (
+	"github.com/viant/xunsafe"
+	"reflect"
+	"unsafe"
+)
+
+// SetField sets a struct field, in opposite to the xunsafe.Field it never writes behind the field,
+// and it copies structs and arrays in a way that is visible for the garbage collector.
+func SetField(field *xunsafe.Field, structPtr unsafe.Pointer, value interface{}) {
+	switch field.Kind() {
+	case reflect.String, reflect.Int, reflect.Float64, reflect.Bool, reflect.Ptr, reflect.Func, reflect.Slice, reflect.Map:
+		field.SetValue(structPtr, value)
+		return
+	}
+
+	dest := reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem()
+	source := reflect.ValueOf(value)
+	if !source.IsValid() {
+		dest.Set(reflect.Zero(field.Type))
+		return
+	}
+
+	if source.Kind() == reflect.Ptr && source.Type().Elem() == field.Type && !source.IsNil() {
+		source = source.Elem()
+	}
+
+	if source.Type().AssignableTo(field.Type) {
+		dest.Set(source)
+		return
+	}
+
+	if (source.Kind() == field.Kind() || (isInteger(source.Kind()) && isInteger(field.Kind()))) && source.Type().ConvertibleTo(field.Type) {
+		dest.Set(source.Convert(field.Type))
+		return
+	}
+
+	field.SetValue(structPtr, value)
+}
+
+func isInteger(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Uintptr
+}
diff --git a/est/op/func.go b/est/op/func.go
index fd92c46..cd746d4 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -111,7 +111,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		state.AddError(err)
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		est.SetField(accumulator.Field, state.MemPtr, anIface)
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/state.go b/est/state.go
index 89d7959..aaeef50 100644
--- a/est/state.go
+++ b/est/state.go
@@ -27,14 +27,17 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
+	s.setValue(xField, v)
+	return nil
+}
+
+func (s *State) setValue(xField *xunsafe.Field, v interface{}) {
 	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
-	default:
+	case reflect.String, reflect.Int, reflect.Int64, reflect.Float64, reflect.Float32, reflect.Bool:
 		xField.Set(s.MemPtr, v)
+	default:
+		SetField(xField, s.MemPtr, v)
 	}
-
-	return nil
 }
 
 func (s *State) EmbedValue(v interface{}) error {
@@ -58,13 +61,7 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
-	}
-
+	s.setValue(xField, v)
 	return nil
 }
 
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index af82cc9..f382813 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -24,7 +24,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
+		est.SetField(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -38,7 +38,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetField(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -52,7 +52,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetField(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -65,7 +65,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetField(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -79,7 +79,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetField(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
diff --git a/evaluate.go b/evaluate.go
index 4997e33..37cb226 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -56,7 +56,7 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 		if value == nil { //interface that was not set
 			continue
 		}
-		valueAccessor.SetValue(newState.MemPtr, value)
+		est.SetField(valueAccessor, newState.MemPtr, value)
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From b16468500d5749fed3dd3e3d60e1decff29dad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 15/35] fix: assign booleans and float32 values to fields

Assigning to a bool or a float32 field of a variable copied the field to
itself, so that the assignment had no effect.
---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 153f35f..ad5ab16 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 68f918d55ab648aa361957a7865358757a0e2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 16/35] fix: copy assigned structs in a way visible for the
 garbage collector

Structs were copied with their pointers as plain bytes, without write
barriers, so that a concurrent garbage collection could free memory which the
copy still referred to.
---
 est/stmt/assign/assign.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index ad5ab16..a7928d0 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -3,7 +3,6 @@ package assign
 import (
 	"github.com/viant/velty/est"
 	op2 "github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -181,7 +180,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				ptr := a.y.Exec(state)
 				if ptr != nil {
-					xunsafe.Copy(a.x.Exec(state), ptr, int(a.x.Type.Size()))
+					copyValue(a.x.Type, a.x.Exec(state), ptr)
 				}
 				return ptr
 			}
@@ -236,13 +235,18 @@ func (a *assign) assignValue() est.Compute {
 		src := a.y.Exec(state)
 
 		if src != nil {
-			xunsafe.Copy(dest, src, int(rType.Size()))
+			copyValue(rType, dest, src)
 		}
 
 		return src
 	}
 }
 
+// copyValue copies a value of given type, pointers that the value holds have to be visible for the garbage collector.
+func copyValue(rType reflect.Type, dest, src unsafe.Pointer) {
+	reflect.NewAt(rType, dest).Elem().Set(reflect.NewAt(rType, src).Elem())
+}
+
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		x, err := xExpr.Operand(control, op2.Assignable(true))
-- 
2.43.0


From 925d48c239fb45f9154bd31bc87f28c9d4dbfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 17/35] fix: convert assigned values to the type of the
 variable

Values of fields, function calls and literals were assigned as they are, an
int assigned to a string variable was read as a string header. Values that
can not be converted are reported as errors.
---
 est/op/operand.go         | 24 ++++++++++--------------
 est/stmt/assign/assign.go |  9 +++++++++
 est/stmt/assign/bool.go   |  6 +++---
 est/stmt/assign/float.go  |  6 +++---
 est/stmt/assign/int.go    |  6 +++---
 est/stmt/assign/string.go |  6 +++---
 6 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..cbab53f 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -14,18 +14,22 @@ type Operand struct {
 	Comp       est.Compute
 	Type       reflect.Type
 	XType      *xunsafe.Type
-	unify      func(pointer unsafe.Pointer) unsafe.Pointer
+	unify      converter.UnifyFn
 	NamedIFace bool
 	Value      interface{}
 }
 
 func (o *Operand) Pointer(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.pointer(state))
+	return o.unifyPtr(o.pointer(state), state)
 }
 
-func (o *Operand) unifyPtr(pointer unsafe.Pointer) unsafe.Pointer {
+func (o *Operand) unifyPtr(pointer unsafe.Pointer, state *est.State) unsafe.Pointer {
 	if pointer != nil && o.unify != nil {
-		pointer = o.unify(pointer)
+		unified, err := o.unify(pointer)
+		if err != nil {
+			state.AddError(err)
+		}
+		return unified
 	}
 	return pointer
 }
@@ -39,7 +43,7 @@ func (o *Operand) pointer(state *est.State) unsafe.Pointer {
 }
 
 func (o *Operand) Exec(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.exec(state))
+	return o.unifyPtr(o.exec(state), state)
 }
 
 func (o *Operand) exec(state *est.State) unsafe.Pointer {
@@ -154,13 +158,5 @@ func (o *Operand) getXType(rType reflect.Type) reflect.Type {
 }
 
 func (o *Operand) SetUnifier(x converter.UnifyFn) {
-	var unify func(pointer unsafe.Pointer) unsafe.Pointer
-	if x != nil {
-		unify = func(pointer unsafe.Pointer) unsafe.Pointer {
-			ptr, _ := x(pointer)
-			return ptr
-		}
-	}
-
-	o.unify = unify
+	o.unify = x
 }
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index a7928d0..7f53b84 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -11,6 +11,15 @@ type assign struct {
 	x, y *op2.Operand
 }
 
+// source returns a pointer to the assigned value, converted to the type of the variable
+func (a *assign) source(state *est.State) unsafe.Pointer {
+	src := a.y.Exec(state)
+	if src == nil { //nil pointer
+		return reflect.New(a.x.Type).UnsafePointer()
+	}
+	return src
+}
+
 func (a *assign) assignValue() est.Compute {
 	a.x.Sel.Field.MustBeAssignable(a.y.Type)
 
diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..1f6dfbc 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.source(state))
 	return ret
 }
 
@@ -31,12 +31,12 @@ func (a *assign) assignBoolOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	*(*bool)(ret) = *(*bool)(a.source(state))
 	return ret
 }
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.source(state))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..53a899f 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.source(state))
 	return ret
 }
 
@@ -31,12 +31,12 @@ func (a *assign) assignFloatOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	*(*float64)(ret) = *(*float64)(a.source(state))
 	return ret
 }
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.source(state))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..e9e1580 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,14 +19,14 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.source(state))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.source(state))
 	return ret
 }
 
@@ -38,6 +38,6 @@ func (a *assign) assignIntOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignIntSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	*(*int)(ret) = *(*int)(a.source(state))
 	return ret
 }
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..3d4f094 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.source(state))
 	return ret
 }
 
@@ -31,12 +31,12 @@ func (a *assign) assignStringOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	*(*string)(ret) = *(*string)(a.source(state))
 	return ret
 }
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.source(state))
 	return ret
 }
-- 
2.43.0


From d005e02bb06a11e56269e85d974f4ed39980863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 18/35] fix: assign copies of values to pointers

A pointer assigned with a literal or with a variable referred to the constant
of the plan or to the memory of the state, modifying it changed following
renderings.
---
 stmt.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d1acd6..470ba24 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,11 +59,23 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 	}
 
 	y.Unify = unify.Y
+	if y.Unify != nil && y.Type != nil && x.Type.Kind() == reflect.Ptr && y.Type.Kind() != reflect.Ptr {
+		y.Unify = unifyCopy(y.Type, unify.Y)
+	}
 	y.Type = unify.RType
 
 	return assign.Assign(x, y)
 }
 
+// unifyCopy copies a value before it is assigned to a pointer, constants and variables must not be shared through it.
+func unifyCopy(rType reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		value := reflect.New(rType)
+		value.Elem().Set(reflect.NewAt(rType, pointer).Elem())
+		return unify(value.UnsafePointer())
+	}
+}
+
 func (p *Planner) compileIf(actual *stmt2.If) (est.New, error) {
 	cond, err := p.compileExpr(actual.Condition)
 	if err != nil {
-- 
2.43.0


From 824ab6cc55629f48a42645d859deea1881fda036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 19/35] fix: pass copies of values to functions

Interface arguments pointed to the memory of the state, a function that kept
them observed following assignments and iterations.
---
 est/op/func.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index cd746d4..3dcb40a 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -214,7 +214,19 @@ func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Valu
 		return reflect.Zero(t)
 	}
 
-	return reflect.ValueOf(anInterface)
+	return detached(reflect.ValueOf(anInterface))
+}
+
+// detached copies a value, which may be backed by the memory of the state that is modified while the function keeps it.
+func detached(value reflect.Value) reflect.Value {
+	switch value.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Invalid:
+		return value
+	}
+
+	result := reflect.New(value.Type()).Elem()
+	result.Set(value)
+	return result
 }
 
 func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, state *est.State, receiverValue reflect.Value) (func() (interface{}, error), bool) {
@@ -241,6 +253,9 @@ func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, st
 				ifaces[0] = receiver
 				for i := 1; i < len(operands); i++ {
 					ifaces[i] = operands[i].ExecInterface(state)
+					if ifaces[i] != nil {
+						ifaces[i] = detached(reflect.ValueOf(ifaces[i])).Interface()
+					}
 				}
 
 				return handler(ifaces...)
-- 
2.43.0


From 5b167006e29c44ee951827c5e4eda617e7550807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 20/35] fix: use interfaces returned by functions

The result of a function or a method returning an interface was read as if
its data was the interface, rendering it crashed.
---
 est/op/func.go     | 3 +++
 est/op/iface.go    | 3 +--
 est/op/operand.go  | 2 +-
 est/stmt/select.go | 3 +--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 3dcb40a..6e5fdd4 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -112,6 +112,9 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	}
 	if anIface != nil {
 		est.SetField(accumulator.Field, state.MemPtr, anIface)
+		if accumulator.Type.Kind() == reflect.Interface {
+			return accumulator.Field.Pointer(state.MemPtr)
+		}
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/op/iface.go b/est/op/iface.go
index e993c95..105a61b 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -2,7 +2,6 @@ package op
 
 import (
 	"github.com/viant/velty/est"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -14,7 +13,7 @@ type Interface struct {
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	asInterface := i.xOperand.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
 	switch actualValue.Kind() {
diff --git a/est/op/operand.go b/est/op/operand.go
index cbab53f..721b1f3 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -139,7 +139,7 @@ func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
 	var anInterface interface{}
 	switch o.XType.Kind() {
 	case reflect.Interface:
-		anInterface = xunsafe.AsInterface(valuePtr)
+		anInterface = o.AsInterface(valuePtr)
 	default:
 		anInterface = o.XType.Value(valuePtr)
 	}
diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..78787cc 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"time"
 	"unsafe"
@@ -85,7 +84,7 @@ func (a *directAppender) appendSelectorName() est.Compute {
 func (a *directAppender) newInterfaceAppender() est.Compute {
 	return func(state *est.State) unsafe.Pointer {
 		exec := a.x.Exec(state)
-		iface := xunsafe.AsInterface(exec)
+		iface := a.x.AsInterface(exec)
 		switch actual := iface.(type) {
 		case string:
 			state.Buffer.AppendString(actual)
-- 
2.43.0


From 564a046817f41347116233a8367a74255b53004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 21/35] fix: check arguments of functions called without
 reflection

An argument of other type than the parameter was read as if it was one, an
int passed as a string crashed the process.
---
 est/op/func.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index 6e5fdd4..239a7e9 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -6,6 +6,7 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
+	"github.com/viant/xunsafe/converter"
 	"reflect"
 	"sync"
 	"unsafe"
@@ -319,9 +320,14 @@ func (f *Functions) RegisterFunction(name string, function interface{}) error {
 
 func (f *Functions) NewFunc(name string, function interface{}, resultType reflect.Type) (*Func, error) {
 	if discoveredFn, rType, discovered := f.discover(nil, function); discovered {
+		reflectFn, err := f.reflectFunc(name, function, reflect.TypeOf(function), rType)
+		if err != nil {
+			return nil, err
+		}
+
 		return &Func{
 			Name:       name,
-			Function:   discoveredFn,
+			Function:   checkOperands(reflect.TypeOf(function), discoveredFn, reflectFn.Function),
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
@@ -343,6 +349,46 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 	return f.reflectFunc(name, function, fType, resultType)
 }
 
+// checkOperands returns function that uses the discovered one only for operands which it can read, otherwise values
+// are checked and converted by reflection.
+func checkOperands(funcType reflect.Type, discovered, reflected Funeexpression) Funeexpression {
+	return func(operands []*Operand, state *est.State) (interface{}, error) {
+		for i := 0; i < len(operands) && i < funcType.NumIn(); i++ {
+			if !sameLayout(operands[i].Type, funcType.In(i)) {
+				return reflected(operands, state)
+			}
+		}
+
+		return discovered(operands, state)
+	}
+}
+
+func sameLayout(actual, expected reflect.Type) bool {
+	if actual == expected {
+		return true
+	}
+
+	if actual == nil || layoutKind(actual) != layoutKind(expected) {
+		return false
+	}
+
+	switch expected.Kind() {
+	case reflect.Slice:
+		return sameLayout(actual.Elem(), expected.Elem())
+	default:
+		return converter.IsPrimitive(expected)
+	}
+}
+
+func layoutKind(rType reflect.Type) reflect.Kind {
+	switch kind := rType.Kind(); kind {
+	case reflect.Int64, reflect.Uint, reflect.Uint64:
+		return reflect.Int
+	default:
+		return kind
+	}
+}
+
 func (f *Functions) reflectFunc(name string, function interface{}, funcType reflect.Type, resultType reflect.Type) (*Func, error) {
 	caller := reflect.ValueOf(function)
 	ret, err := f.newFunc(name, funcType, resultType, caller, false)
-- 
2.43.0


From 4de5ebdc4e954f9e1af085f48f9ad85ff49e7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 22/35] fix: compute binary expressions with the converted
 types of operands

Operands of different types were converted to a common type, but the
expression was computed and its result was read using the type of one of the
operands: strings and floats were read as integers and the other way round.
---
 binary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary.go b/binary.go
index bf02779..fd12c69 100644
--- a/binary.go
+++ b/binary.go
@@ -28,6 +28,12 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	y.Unify = unify.Y
 
 	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	if unify.X != nil || unify.Y != nil { //operands are converted
+		if resultType.Kind() != reflect.Bool {
+			resultType = unify.RType
+		}
+		x.Type, y.Type = unify.RType, unify.RType
+	}
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
-- 
2.43.0


From f72330d6933283a0ca0b14fccaca06b871b7d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 23/35] fix: read items of slices and maps of pointers

The pointer stored in a slice was read as the struct it points to, and methods
called on items of maps of pointers received the struct as a pointer.
---
 est/op/slice.go    |  6 +++++-
 est/op/upstream.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/est/op/slice.go b/est/op/slice.go
index c308fed..0c17bab 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -24,7 +24,11 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 
 	index := *(*int)(indexPtr)
 	ensureInRange(index, s.XSlice.Len(slicePtr))
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
+	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
+		return xunsafe.DerefPointer(itemPtr)
+	}
+	return itemPtr
 }
 
 //execInterface returns item of a slice held by an interface
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 05c24ce..9d2a757 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -89,9 +89,11 @@ func newUpstream(selector *Selector, derefLast bool, refLast bool, assignable bo
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Slice.Exec(ptr, state)
+				ptr = refIfNeeded(ptr, shouldRef || (ptr != nil && isReceiver(parents, i)))
 			} else if parents[i].Map != nil {
-				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Map.Exec(ptr, state)
+				ptr = refIfNeeded(ptr, shouldRef || (ptr != nil && isReceiver(parents, i)))
 			} else if parents[i].InterfaceExec != nil {
 				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
 			} else {
@@ -111,6 +113,11 @@ func newUpstream(selector *Selector, derefLast bool, refLast bool, assignable bo
 	}
 }
 
+// isReceiver returns true if the value is a pointer on which a method is called
+func isReceiver(parents []*Selector, i int) bool {
+	return i < len(parents)-1 && parents[i+1].Func != nil && parents[i].Type.Kind() == reflect.Ptr
+}
+
 func refIfNeeded(literal unsafe.Pointer, ref bool) unsafe.Pointer {
 	if ref {
 		literal = xunsafe.RefPointer(literal)
-- 
2.43.0


From 7ca1c03f6f43e1d5acee5389f95a48f6c120a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 24/35] fix: convert indexes and reject values of unknown type

An index of other type than int was read as int, a variable assigned with an
undefined value read the memory of other variable.
---
 est/op/selector.go        |  7 ++++++-
 est/op/slice.go           | 27 +++++++++++++++++++++------
 est/stmt/assign/assign.go | 16 ++++++++--------
 stmt.go                   |  4 ++++
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..d41ddfa 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,6 +1,7 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
@@ -114,7 +115,11 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
+	if indexOperand.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the %v index", parent.ID)
+	}
+
+	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
 	}
diff --git a/est/op/slice.go b/est/op/slice.go
index 0c17bab..0238364 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -17,12 +17,11 @@ type Slice struct {
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	indexPtr := s.IndexOperand.Exec(state)
-	if indexPtr == nil {
+	index, ok := s.index(state)
+	if !ok {
 		return nil
 	}
 
-	index := *(*int)(indexPtr)
 	ensureInRange(index, s.XSlice.Len(slicePtr))
 	itemPtr := s.XSlice.PointerAt(slicePtr, uintptr(index))
 	if s.XSlice.Type.Elem().Kind() == reflect.Ptr {
@@ -31,14 +30,30 @@ func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	return itemPtr
 }
 
-//execInterface returns item of a slice held by an interface
-func (s *Slice) execInterface(slice reflect.Value, state *est.State) unsafe.Pointer {
+//index returns an index converted to int
+func (s *Slice) index(state *est.State) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
+	if indexPtr != nil && s.ToInter != nil {
+		var err error
+		if indexPtr, err = s.ToInter(indexPtr); err != nil {
+			state.AddError(err)
+		}
+	}
+
 	if indexPtr == nil {
+		return 0, false
+	}
+
+	return *(*int)(indexPtr), true
+}
+
+//execInterface returns item of a slice held by an interface
+func (s *Slice) execInterface(slice reflect.Value, state *est.State) unsafe.Pointer {
+	index, ok := s.index(state)
+	if !ok {
 		return nil
 	}
 
-	index := *(*int)(indexPtr)
 	ensureInRange(index, slice.Len())
 	item := slice.Index(index).Interface()
 	return unsafe.Pointer(&item)
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 7f53b84..73feffd 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -36,7 +36,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 
 				*(*int)(destPtr) = *(*int)(srcPtr)
 				return srcPtr
@@ -58,7 +58,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*int8)(destPtr) = *(*int8)(srcPtr)
 				return srcPtr
 			}
@@ -77,7 +77,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*int16)(destPtr) = *(*int16)(srcPtr)
 				return srcPtr
 			}
@@ -96,7 +96,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*int32)(destPtr) = *(*int32)(srcPtr)
 				return srcPtr
 			}
@@ -114,7 +114,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*string)(destPtr) = *(*string)(srcPtr)
 				return srcPtr
 			}
@@ -132,7 +132,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*float64)(destPtr) = *(*float64)(srcPtr)
 				return srcPtr
 			}
@@ -150,7 +150,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
@@ -169,7 +169,7 @@ func (a *assign) assignValue() est.Compute {
 		if !wasPtr {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
-				srcPtr := a.y.Exec(state)
+				srcPtr := a.source(state)
 				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
diff --git a/stmt.go b/stmt.go
index 470ba24..46a7efd 100644
--- a/stmt.go
+++ b/stmt.go
@@ -53,6 +53,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the value assigned to %v", x.Name)
+	}
+
 	unify, err := converter.Unify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d08d9dc624ba5607b6f4520bcb56560856b6bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 25/35] fix: test computed conditions by their type

Results of expressions used as a condition were read as booleans, so that only
the first byte of a computed number or string was tested.
---
 est/stmt/if.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..9e46910 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -71,7 +71,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
+	if condition.New != nil && rType == nil {
 		rType = reflect.TypeOf(true)
 	}
 
-- 
2.43.0


From e20c539773dbafff45e3c0d1b9ef526079f0567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 26/35] fix: keep a pointer when the assigned value can not be
 converted

---
 est/stmt/assign/assign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 73feffd..e9829d2 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -231,7 +231,7 @@ func (a *assign) assignValue() est.Compute {
 			dest := a.x.Exec(state)
 			src := a.y.Exec(state)
 
-			if dest != nil {
+			if dest != nil && src != nil {
 				*(*unsafe.Pointer)(dest) = *(*unsafe.Pointer)(src)
 			}
 
-- 
2.43.0


From 4749d031e1cf39d7f73864268225f4da842ac876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 27/35] fix: reject loops which reuse a variable of other type

An item was written to a variable already defined with other type, and read
using that type.
---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index 46a7efd..6e71fff 100644
--- a/stmt.go
+++ b/stmt.go
@@ -152,6 +152,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || (!itemType.AssignableTo(selector.Type) && (itemType.Kind() != selector.Type.Kind() || !itemType.ConvertibleTo(selector.Type))) {
+		return nil, fmt.Errorf("can't use %v of type %v for items of type %v", actual.Item.ID, selector.Type, itemType)
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3e232747603124f6953b5ece91f85bdb34f05313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 28/35] fix: use the type of concatenated strings and booleans

---
 binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index fd12c69..22fcac2 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -29,7 +30,9 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 
 	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
 	if unify.X != nil || unify.Y != nil { //operands are converted
-		if resultType.Kind() != reflect.Bool {
+		switch actual.Token {
+		case ast.LEQ, ast.LSS, ast.GTR, ast.GTE, ast.NEQ, ast.EQ:
+		default:
 			resultType = unify.RType
 		}
 		x.Type, y.Type = unify.RType, unify.RType
-- 
2.43.0


From dcd5a53cccade305232a5e7eccc253bafecd58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 29/35] fix: copy assigned slices visibly for the garbage
 collector

---
 est/stmt/assign/assign.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index e9829d2..bc77dde 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -201,11 +201,7 @@ func (a *assign) assignValue() est.Compute {
 				ptr := a.y.Exec(state)
 
 				if destPtr != nil && ptr != nil {
-					sourceHeader := (*reflect.SliceHeader)(ptr)
-					destHader := (*reflect.SliceHeader)(destPtr)
-					destHader.Data = sourceHeader.Data
-					destHader.Len = sourceHeader.Len
-					destHader.Cap = sourceHeader.Cap
+					*(*[]byte)(destPtr) = *(*[]byte)(ptr) //unlike reflect.SliceHeader, it is visible for the garbage collector
 				}
 
 				return ptr
-- 
2.43.0


From 6445de118e3ddbf7bd3a0d559173bac99c6023a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 30/35] fix: return maps of functions with a dynamic result
 type by a pointer to the map

---
 est/op/func.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 239a7e9..55e20bc 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -116,8 +116,10 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		if accumulator.Type.Kind() == reflect.Interface {
 			return accumulator.Field.Pointer(state.MemPtr)
 		}
-		if f.XType.Type().Kind() == reflect.Map {
-			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
+		if accumulator.Type.Kind() == reflect.Map {
+			aMap := reflect.New(accumulator.Type)
+			aMap.Elem().Set(reflect.ValueOf(anIface))
+			return unsafe.Pointer(aMap.Pointer())
 		}
 		return xunsafe.AsPointer(anIface)
 	}
-- 
2.43.0


From 06b24910176039437bb213cffb01cbb7a5fa1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 31/35] fix: build with Go 1.17, as declared in go.mod

---
 est/stmt/assign/assign.go | 2 +-
 stmt.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index bc77dde..ca8b89f 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -15,7 +15,7 @@ type assign struct {
 func (a *assign) source(state *est.State) unsafe.Pointer {
 	src := a.y.Exec(state)
 	if src == nil { //nil pointer
-		return reflect.New(a.x.Type).UnsafePointer()
+		return unsafe.Pointer(reflect.New(a.x.Type).Pointer())
 	}
 	return src
 }
diff --git a/stmt.go b/stmt.go
index 6e71fff..7d99e68 100644
--- a/stmt.go
+++ b/stmt.go
@@ -76,7 +76,7 @@ func unifyCopy(rType reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
 	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 		value := reflect.New(rType)
 		value.Elem().Set(reflect.NewAt(rType, pointer).Elem())
-		return unify(value.UnsafePointer())
+		return unify(unsafe.Pointer(value.Pointer()))
 	}
 }
 
-- 
2.43.0


From 422b691b2f138f2cf03ece92678cbbc11574fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 32/35] fix: let strings.HasPrefix check the prefix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From 8c0fbabc6d89cfadcb53d1fabd338206d9c4827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 33/35] fix: determine the type of a nested expression by its
 compiled operands

---
 binary.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/binary.go b/binary.go
index 22fcac2..5b64022 100644
--- a/binary.go
+++ b/binary.go
@@ -28,13 +28,13 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	//the type of a nested expression is known only after it has been compiled
+	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
+	switch actual.Token {
+	case ast.LEQ, ast.LSS, ast.GTR, ast.GTE, ast.NEQ, ast.EQ:
+		resultType = actual.Type()
+	}
 	if unify.X != nil || unify.Y != nil { //operands are converted
-		switch actual.Token {
-		case ast.LEQ, ast.LSS, ast.GTR, ast.GTE, ast.NEQ, ast.EQ:
-		default:
-			resultType = unify.RType
-		}
 		x.Type, y.Type = unify.RType, unify.RType
 	}
 	acc := p.accumulator(resultType)
-- 
2.43.0


From 334fdbae96f8fbf70a732d9e39d3386d25e87009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 34/35] fix: IndexBy keys share the memory of the field they
 were read from, so assigning that field corrupted the map

---
 functions/slices.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/functions/slices.go b/functions/slices.go
index 9332897..4bfe5c1 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -132,7 +132,13 @@ func (in *indexSliceByFunc) Handler() interface{} {
 
 			key := keys.Normalize(fieldValue)
 			fieldValue = xField.Value(xunsafe.AsPointer(key))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			mapKey := reflect.New(mapType.Key()).Elem()
+			if keyValue := reflect.ValueOf(fieldValue); keyValue.IsValid() {
+				keyCopy := reflect.New(keyValue.Type()).Elem() //the field can be modified while the map is in use
+				keyCopy.Set(keyValue)
+				mapKey.Set(keyCopy)
+			}
+			resultMap.SetMapIndex(mapKey, reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
-- 
2.43.0


From 47e7c823353c169bc7be411667a29da69c8e4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 35/35] fix: copy values converted for pointers, the converter
 shares its constants

---
 stmt.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d99e68..29ff7ef 100644
--- a/stmt.go
+++ b/stmt.go
@@ -66,6 +66,9 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 	if y.Unify != nil && y.Type != nil && x.Type.Kind() == reflect.Ptr && y.Type.Kind() != reflect.Ptr {
 		y.Unify = unifyCopy(y.Type, unify.Y)
 	}
+	if y.Unify != nil && unify.RType.Kind() == reflect.Ptr && derefType(y.Type) != derefType(unify.RType) {
+		y.Unify = copyConverted(unify.RType, y.Unify)
+	}
 	y.Type = unify.RType
 
 	return assign.Assign(x, y)
@@ -80,6 +83,34 @@ func unifyCopy(rType reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
 	}
 }
 
+func derefType(rType reflect.Type) reflect.Type {
+	for rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+	return rType
+}
+
+// copyConverted copies a value after it was converted, the converter returns constants of its own to and from booleans.
+func copyConverted(rType reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		converted, err := unify(pointer)
+		if converted == nil || err != nil {
+			return converted, err
+		}
+
+		ptr := reflect.NewAt(rType, converted).Elem()
+		if ptr.IsNil() {
+			return converted, nil
+		}
+
+		value := reflect.New(rType.Elem())
+		value.Elem().Set(ptr.Elem())
+		result := reflect.New(rType)
+		result.Elem().Set(value)
+		return unsafe.Pointer(result.Pointer()), nil
+	}
+}
+
 func (p *Planner) compileIf(actual *stmt2.If) (est.New, error) {
 	cond, err := p.compileExpr(actual.Condition)
 	if err != nil {
-- 
2.43.0

