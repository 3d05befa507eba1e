From f5d620a3fbb5a236379b380d521ee2b39ba12d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:10 +0000
Subject: [PATCH 01/15] fix: report CPU times with their microseconds part

timeValToDuration took the microseconds of a timeval for nanoseconds.
---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From 8fb9f5b998097cab6f409332d226977a39617e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 02/15] fix: report the unshared stack size

The Getrusage wrappers never copied Isrss, so /proc/memory/unshared-stack was
always 0.
---
 go/tricorder/wrapper/syscall_darwin.go | 1 +
 go/tricorder/wrapper/syscall_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/tricorder/wrapper/syscall_darwin.go b/go/tricorder/wrapper/syscall_darwin.go
index 2eca0b9..831cd56 100644
--- a/go/tricorder/wrapper/syscall_darwin.go
+++ b/go/tricorder/wrapper/syscall_darwin.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss)
 	rusage.Ixrss = int64(syscallRusage.Ixrss)
 	rusage.Idrss = int64(syscallRusage.Idrss)
+	rusage.Isrss = int64(syscallRusage.Isrss)
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
diff --git a/go/tricorder/wrapper/syscall_linux.go b/go/tricorder/wrapper/syscall_linux.go
index 500b0e6..b5ffd59 100644
--- a/go/tricorder/wrapper/syscall_linux.go
+++ b/go/tricorder/wrapper/syscall_linux.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10
 	rusage.Ixrss = int64(syscallRusage.Ixrss) << 10
 	rusage.Idrss = int64(syscallRusage.Idrss) << 10
+	rusage.Isrss = int64(syscallRusage.Isrss) << 10
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
-- 
2.43.0


From 74ba965773c7f2357aad3c0fa80e892fbdc23a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 03/15] fix: round negative durations to nearest in
 duration.FromFloat

FromFloat(-1) was -999.999999ms since 0.5 was added whatever the sign.
---
 go/tricorder/duration/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
-- 
2.43.0


From 1b7d1a965c99da04b79cd509f05322e0326dff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 04/15] fix: convert large integers back from float exactly

Adding 0.5 to an odd integer of 2^52 or more rounds to the next even one, so
Type.FromFloat(Type.ToFloat(x)) was not x.
---
 go/tricorder/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..2d0c6cb 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,13 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From a2ad0def3a9e54b2c45a370d1f065216750e7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:10 +0000
Subject: [PATCH 05/15] fix: keep generation and cumulative marking of an empty
 distribution

The snapshot of a distribution holding no values reported generation 0 and
always claimed to be cumulative, so the generation fell back when the last
value was removed.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 5001054b48de57df79af91b4c4cf8dbc447848ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:10 +0000
Subject: [PATCH 06/15] fix: hold the group while printing a single metric as
 text

Without a session of its own, the text handler released the group before it
read the variable, racing with the group's next update.
---
 go/tricorder/html.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..72473b4 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -264,10 +264,12 @@ func textEmitDirectoryOrMetric(
 		fmt.Fprintf(w, "*Path does not exist.*")
 		return nil
 	}
+	s := newSession()
+	defer s.Close()
 	if m == nil {
-		return d.GetAllMetrics(&textCollector{W: w}, nil)
+		return d.GetAllMetrics(&textCollector{W: w}, s)
 	}
-	return textEmitMetric(m, nil, w)
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From 1b48bbe6d7c6c1abaf5c3678d1ebad53b7a81e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:10 +0000
Subject: [PATCH 07/15] fix: leave metrics JSON cannot represent out of
 listings

A NaN or infinity inside a list or distribution, or one returned by a callback
only when called again, turned the whole JSON listing into an error page.
---
 go/tricorder/json.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..5cce7c0 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -17,10 +17,17 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 	return &result
 }
 
-type jsonMetricsCollector messages.MetricList
+type jsonMetricsCollector []json.RawMessage
 
+// Collect leaves out metrics that JSON can't represent such as lists
+// containing NaN so that they don't take down the whole listing.
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	encoded, err := json.Marshal(jsonAsMetric(m, s))
+	if err != nil {
+		errLog.Printf("Error encoding %s: %v\n", m.AbsPath(), err)
+		return nil
+	}
+	*c = append(*c, encoded)
 	return nil
 }
 
-- 
2.43.0


From 9fbea9260d5540a5f77c7d3e1732b35822dc6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:10 +0000
Subject: [PATCH 08/15] fix: escape directory names in HTML links

The link of a directory named with ?, # or % led somewhere else.
---
 go/tricorder/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 72473b4..a34930d 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,7 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	return (&url.URL{Path: htmlUrl + d.AbsPath()}).EscapedPath()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From 45fcaa6e2eb30bcbad76052a7b035ddb2e47770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:24 +0000
Subject: [PATCH 09/15] fix: report values of user defined types with the
 promised type

A variable, callback or list of a type such as 'type Celsius float64' was
reported with that type, which gob refuses to encode, so the RPC listing of
everything else failed along with it.
---
 go/tricorder/metric.go | 43 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..69c1846 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,28 +608,11 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts value to a slice of type newType having element type t.
+func convertSlice(
+	value reflect.Value,
+	newType reflect.Type,
+	t types.Type) reflect.Value {
 	length := value.Len()
 	defensiveCopy := reflect.MakeSlice(newType, length, length)
 	for i := 0; i < length; i++ {
@@ -645,8 +628,10 @@ func convertFromIntOrUintSlice(
 
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
-// may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// may or may not make a defensive copy of aSlice. Returned value is always
+// of the type the API promises for lists of t: If aSlice is an []int
+// or []uint, returned value will be size specific, e.g []int64; if aSlice
+// is of a user defined type, returned value will be of the predeclared one.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,9 +643,9 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	sliceType := reflect.TypeOf(t.NilSlice())
+	if value.Type() != sliceType {
+		value = convertSlice(value, sliceType, t)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
@@ -1080,7 +1065,9 @@ func valueToInterface(
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
 	case !isValueAPointer:
-		return value.Interface()
+		// Likewise, client may have passed a pointer to a user defined
+		// type such as type Celsius float64.
+		return value.Convert(reflect.TypeOf(t.ZeroValue())).Interface()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From ddf7da0ce945fb88dc48eaa5f009a3c26018e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:25 +0000
Subject: [PATCH 10/15] fix: register flags whose Get method returns nil

RegisterFlags panicked on them.
---
 go/tricorder/metric.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 69c1846..9cb980a 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -843,8 +843,12 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer, ok bool
+		// Get() may return nil for a flag that has no value yet
+		if t := reflect.TypeOf(flagGetter.Get()); t != nil {
+			valType, isValAPointer, ok = getPrimitiveType(t)
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
-- 
2.43.0


From 0b33d2724abe7003c46dded048ac64bc463d2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:05 +0000
Subject: [PATCH 11/15] fix: reject callbacks that take arguments

---
 go/tricorder/metric.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 9cb980a..4bf823f 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -874,6 +874,10 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 		if funcArgCount != 1 {
 			panic(panicBadFunctionReturnTypes)
 		}
+		// We call our functions without arguments
+		if t.NumIn() > 1 || t.NumIn() == 1 && !t.IsVariadic() {
+			return nil, ErrWrongType
+		}
 		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
 		if !ok {
 			return nil, ErrWrongType
-- 
2.43.0


From ce2cd65f8ab37a0f4b420123063c25528058b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:19 +0000
Subject: [PATCH 12/15] fix: reject non-digits after the ninth decimal of a
 duration

---
 go/tricorder/duration/duration.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..cf6c13a 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -145,6 +145,13 @@ func parse(str string) (result Duration, err error) {
 		if len(fracStr) < 9 {
 			fracStr = fracStr + strings.Repeat("0", 9-len(fracStr))
 		} else {
+			// Digits after the ninth are truncated, but they must be digits.
+			for _, digit := range fracStr[9:] {
+				if digit < '0' || digit > '9' {
+					err = errors.New("Malformed fraction while parsing")
+					return
+				}
+			}
 			fracStr = fracStr[:9]
 		}
 		frac, err = strconv.ParseUint(fracStr, 10, 32)
-- 
2.43.0


From 5eecdcfca2428e35e5ef5887885f0597319b936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:02 +0000
Subject: [PATCH 13/15] fix: read each distribution and list once per request

A distribution or list registered under two paths and changed during a
request was reported with two timestamps for the same group Id.
---
 go/tricorder/metric.go | 48 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 4bf823f..82d9d0c 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -74,10 +74,44 @@ var (
 // it is up to the function to create its own session if necessary.
 type session struct {
 	visitedRegions map[*region]time.Time
+	// The distributions and lists already read by this session
+	snapshots map[*distribution]*snapshot
+	slices    map[*listType]timedSlice
+}
+
+// timedSlice is the contents of a list and the time of its last change.
+type timedSlice struct {
+	aSlice    interface{}
+	timeStamp time.Time
 }
 
 func newSession() *session {
-	return &session{visitedRegions: make(map[*region]time.Time)}
+	return &session{
+		visitedRegions: make(map[*region]time.Time),
+		snapshots:      make(map[*distribution]*snapshot),
+		slices:         make(map[*listType]timedSlice)}
+}
+
+// Snapshot returns the snapshot of d. It is the same for the whole session
+// as metrics with the same group Id must have the same timestamp.
+func (s *session) Snapshot(d *distribution) *snapshot {
+	result, ok := s.snapshots[d]
+	if !ok {
+		result = d.Snapshot()
+		s.snapshots[d] = result
+	}
+	return result
+}
+
+// AsSlice returns the contents of l. It is the same for the whole session
+// as metrics with the same group Id must have the same timestamp.
+func (s *session) AsSlice(l *listType) (interface{}, time.Time) {
+	result, ok := s.slices[l]
+	if !ok {
+		result.aSlice, result.timeStamp = l.AsSlice()
+		s.slices[l] = result
+	}
+	return result.aSlice, result.timeStamp
 }
 
 // Visit indicates that caller is about to fetch metrics from a
@@ -1130,10 +1164,14 @@ func (v *value) updateJsonOrRpcMetric(
 	metric.SubType = v.SubType()
 	metric.Bits = v.Bits()
 	metric.Unit = v.Unit()
+	if s == nil {
+		s = newSession()
+		defer s.Close()
+	}
 	switch t {
 	case types.Dist:
 		dist := v.AsDistribution()
-		snapshot := dist.Snapshot()
+		snapshot := s.Snapshot(dist)
 		metric.Value = &messages.Distribution{
 			Min:             snapshot.Min,
 			Max:             snapshot.Max,
@@ -1148,13 +1186,9 @@ func (v *value) updateJsonOrRpcMetric(
 		metric.TimeStamp = snapshot.TimeStamp
 	case types.List:
 		alist := v.AsList()
-		metric.Value, metric.TimeStamp = alist.AsSlice()
+		metric.Value, metric.TimeStamp = s.AsSlice(alist)
 		metric.GroupId = alist.GroupId()
 	default:
-		if s == nil {
-			s = newSession()
-			defer s.Close()
-		}
 		metric.Value = v.AsInterface(s)
 		metric.GroupId = v.RegionId()
 		metric.TimeStamp = v.TimeStamp(s)
-- 
2.43.0


From 8f7741a7dd1c3027038d550838dc8b8236bde64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:28 +0000
Subject: [PATCH 14/15] fix: reject a double minus sign before a zero duration

---
 go/tricorder/duration/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index cf6c13a..aafc489 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -135,7 +135,7 @@ func parse(str string) (result Duration, err error) {
 	if err != nil {
 		return
 	}
-	if whole < 0 {
+	if whole < 0 || strings.HasPrefix(str, "-") {
 		err = errors.New("Double negative while parsing")
 		return
 	}
-- 
2.43.0


From 75486fbe0063ee4e3cdb2e675427621c5aef9bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 15/15] fix: do not send gzip to clients that give it quality
 zero

---
 go/tricorder/http.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..206b961 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -62,8 +63,32 @@ type gzipHandler struct {
 	H http.Handler
 }
 
+// acceptsGzip returns true if acceptEncoding, the value of an
+// Accept-Encoding header, lists gzip with a quality other than zero.
+func acceptsGzip(acceptEncoding string) bool {
+	for _, coding := range strings.Split(acceptEncoding, ",") {
+		parts := strings.Split(coding, ";")
+		name := strings.ToLower(strings.TrimSpace(parts[0]))
+		if name != "gzip" && name != "x-gzip" {
+			continue
+		}
+		for _, param := range parts[1:] {
+			param = strings.ToLower(strings.TrimSpace(param))
+			if !strings.HasPrefix(param, "q=") {
+				continue
+			}
+			quality, err := strconv.ParseFloat(param[2:], 64)
+			if err == nil && quality == 0.0 {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (h gzipHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
+	if !acceptsGzip(r.Header.Get("Accept-Encoding")) {
 		h.H.ServeHTTP(w, r)
 		return
 	}
-- 
2.43.0

